// A05: mass matrix; A06: solution vectors, displacements and prescribed values
#include "shellgen.h"
using namespace gen;
typedef gsSparseMatrix<real_t> SM;
static const int EX=4;
static double vdot(const Vec&a,const Vec&b){ return (a.transpose()*b)(0,0); }
static double scaleOf(const SM&K){ double m=0; for(int k=0;k<K.outerSize();++k) for(SM::InnerIterator it(K,k);it;++it) m=std::max(m,std::abs(it.value())); return m; }
static SM sub(const SM&a,const SM&b){ return a-b; }

PROP(A05,mass,120,"more than one free DoF and a varying or multi-element density times thickness")
{
    ShellOpt o; o.maxKnots=1; o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=false; Shell S=shell(ctx,o); ctx.require(okState(S,S.mp,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get(),ctx.s.flag(50)); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>1); ctx.nontrivial();
    bool before=ctx.s.flag(30); if(before) good(ctx,a->assemble(),"assemble");
    good(ctx,a->assembleMass(),"assembleMass"); SM M=a->massMatrix(); ctx.check(M.rows()==map.freeSize()&&M.cols()==M.rows(),"A05/size");
    Vec x=rough(ctx.s,M.rows(),1.0),y=rough(ctx.s,M.rows(),1.0); MP v=fieldOf(S,map,x),w=fieldOf(S,map,y);
    auto form=[&](const MP&v,const MP&w){ Form F; for(int q=0;q<S.np();q++){ QP Q=quad(S.basis.basis(q),EX); auto g=pts(S.mp.patch(q),Q.u,S.dim),vv=pts(v.patch(q),Q.u,S.dim),ww=pts(w.patch(q),Q.u,S.dim); for(size_t i=0;i<g.size();i++){ R J; normal(g[i],&J); F.add(Q.w[i]*J*(R)S.m.rho(g[i].x)*(R)S.m.t(g[i].x)*ref::dot(vv[i].x,ww[i].x)); } } return F; };
    Form F=form(v,w); ctx.close(vdot(x,M*y),(double)F.val,(double)F.scale,1e-9,"A05/mass");
    ctx.close(scaleOf(sub(M,SM(M.transpose()))),0,scaleOf(M),1e-11,"A05/symmetric"); ctx.check(vdot(y,M*y)>0,"A05/positive");
    good(ctx,a->assembleMass(true),"assembleMass"); SM L=a->massMatrix(); ctx.check(L.rows()==M.rows()&&L.cols()==M.rows(),"A05/lumped size");
    // lumped: diagonal, entry = mass carried by the shape function
    for(int k=0;k<L.outerSize();++k) for(SM::InnerIterator it(L,k);it;++it) if(it.row()!=it.col()) ctx.close(it.value(),0,scaleOf(M),1e-13,"A05/lumped diagonal");
    int k=ctx.s.draw(M.rows()); Vec e=Vec::Zero(M.rows(),1); e(k,0)=1; MP ek=fieldOf(S,map,e); MP one=ek; for(int p=0;p<S.np();p++){ Mat c=Mat::Zero(one.patch(p).coefs().rows(),S.dim); for(int i=0;i<S.dim;i++) if(ek.patch(p).coefs().col(i).cwiseAbs().maxCoeff()>0) c.col(i).setOnes(); one.patch(p).coefs()=c; }
    Form G=form(ek,one); ctx.close(L.coeff(k,k),(double)G.val,(double)G.scale,1e-9,"A05/lumped entry");
    if(before){ good(ctx,a->assembleMass(),"assembleMass"); ctx.close(scaleOf(sub(SM(a->massMatrix()),M)),0,scaleOf(M),1e-14,"A05/repeat"); }
}
PROP(A05,point,60,"one to three point masses")
{
    ShellOpt o; o.maxKnots=1; o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=false; Shell S=shell(ctx,o); ctx.require(okState(S,S.mp,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get()); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>1); ctx.nontrivial();
    struct PM { int p; Mat u; double m; bool par; }; std::vector<PM> pm; int n=ctx.s.range(1,3); bool phys=false;
    gsPointLoads<real_t> pl; for(int i=0;i<n;i++){ PM q; q.p=ctx.s.draw(S.np()); Mat sup=S.mp.patch(q.p).support(); q.par=!ctx.s.flag(30); phys|=!q.par; q.u.resize(2,1); for(int j=0;j<2;j++) q.u(j,0)=sup(j,0)+(sup(j,1)-sup(j,0))*ctx.s.real(q.par?0:0.1,q.par?1:0.9,0.5); q.m=ctx.s.logreal(0.01,10,1); pm.push_back(q);
        gsVector<real_t> v(1); v<<q.m; gsVector<real_t> x=q.u.col(0); if(!q.par){ Mat y; S.mp.patch(q.p).eval_into(q.u,y); x=y.col(0); } pl.addLoad(x,v,q.p,q.par); }
    bool lump=ctx.s.flag(40); good(ctx,a->assembleMass(lump),"assembleMass"); SM M0=a->massMatrix(); a->setPointMass(pl); good(ctx,a->assembleMass(lump),"assembleMass"); SM M1=a->massMatrix(); SM D=M1-M0;
    Vec x=rough(ctx.s,M0.rows(),1.0),y=rough(ctx.s,M0.rows(),1.0); MP v=fieldOf(S,map,x),w=fieldOf(S,map,y); Form F; double tol=phys?1e-4:1e-9;
    if(!lump){ for(auto&q:pm){ auto vv=pts(v.patch(q.p),q.u,S.dim),ww=pts(w.patch(q.p),q.u,S.dim); for(int i=0;i<S.dim;i++) F.add(q.m*vv[0].x[i]*ww[0].x[i]); } ctx.close(vdot(x,D*y),(double)F.val,(double)F.scale+1e-12*scaleOf(M0),tol,"A05/point mass"); }
    else { for(auto&q:pm){ MP z=v; for(int p=0;p<S.np();p++) z.patch(p).coefs()=v.patch(p).coefs().cwiseProduct(w.patch(p).coefs()); auto zz=pts(z.patch(q.p),q.u,S.dim); for(int i=0;i<S.dim;i++) F.add(q.m*zz[0].x[i]); } ctx.close(vdot(x,D*y),(double)F.val,(double)F.scale+1e-12*scaleOf(M0),tol,"A05/point mass lumped"); }
}
// indices of a side, k-th layer
static std::vector<int> layer(const gsBasis<real_t>&b,boxSide s,int k){ gsMatrix<index_t> m=b.boundaryOffset(s,k); std::vector<int> r; for(int i=0;i<m.rows();i++) r.push_back(m(i,0)); return r; }
PROP(A06,maps,200,"free and prescribed DoFs, or two patches")
{
    ShellOpt o; o.hyper=false; o.clamped=false; Shell S=shell(ctx,o);
    // one prescribed field per component, so that conditions meeting in a corner agree
    double val[3]; int kind[3]; for(int i=0;i<3;i++){ val[i]=0.2*ctx.s.sym(1); kind[i]=ctx.s.range(0,2); } for(auto&b:S.bcs) if(b.comp>=0){ b.val=val[b.comp]; b.kind=kind[b.comp]; } else { b.kind=0; for(auto&c:S.bcs) c.kind=0; for(int i=0;i<3;i++) kind[i]=0; }
    for(auto&b:S.bcs) if(b.comp>=0&&kind[b.comp]==0) b.kind=0;
    S.applyBCs(); AsmP a=S.make(S.mat.get(),ctx.s.flag(50)); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0);
    int before=ctx.s.range(0,3); if(before==1) good(ctx,a->assembleMatrix(S.mp),"assembleMatrix"); if(before==2) good(ctx,a->assemble(),"assemble"); if(before==3) a->homogenizeDirichlet();
    ctx.nontrivial(map.boundarySize()>0||S.np()>1); ctx.check(a->numDofs()==map.freeSize(),"A06/number of DoFs");
    Vec x=rough(ctx.s,map.freeSize(),0.3); MP D=a->constructDisplacement(x); ctx.check((int)D.nPatches()==S.np(),"A06/patches");
    Vec y=a->constructSolutionVector(D); ctx.closeM(y,x,1,1e-15,"A06/round trip");
    int tot=0; for(int p=0;p<S.np();p++){ const Mat&c=D.patch(p).coefs(); tot+=c.size(); ctx.check(c.rows()==S.basis.basis(p).size()&&c.cols()==S.dim,"A06/coefficients"); for(int i=0;i<S.dim;i++)for(int k=0;k<c.rows();k++) if(map.is_free(k,p,i)) ctx.check(c(k,i)==x(map.index(k,p,i),0),"A06/free coefficient"); }
    MP def=a->constructSolution(x); for(int p=0;p<S.np();p++) ctx.closeM(def.patch(p).coefs(),Mat(S.mp.patch(p).coefs()+D.patch(p).coefs()),1,1e-14,"A06/deformed");
    { MP d2; a->constructSolution(x,d2); MP d3; a->constructDisplacement(x,d3); for(int p=0;p<S.np();p++){ ctx.closeM(d2.patch(p).coefs(),def.patch(p).coefs(),1,1e-15,"A06/deformed, out parameter"); ctx.closeM(d3.patch(p).coefs(),D.patch(p).coefs(),1,1e-15,"A06/displacement, out parameter"); } MP d4=S.mp; a->updateMultiPatch(x,d4); for(int p=0;p<S.np();p++) ctx.closeM(d4.patch(p).coefs(),def.patch(p).coefs(),1,1e-15,"A06/updateMultiPatch"); }
    // prescribed values are met on the side, for any solution vector
    for(auto&b:S.bcs) for(int i=0;i<S.dim;i++) if(b.comp==-1||b.comp==i)
    {
        QP q=quadSide(S.basis.basis(b.patch),b.side,2); auto g=pts(S.mp.patch(b.patch),q.u,S.dim),d=pts(D.patch(b.patch),q.u,S.dim);
        for(size_t k=0;k<g.size();k++){ R e= b.kind==0?0 : b.kind==1? b.val : b.val+0.5*b.val*g[k].x[0]-0.3*b.val*g[k].x[1]; ctx.close((double)d[k].x[i],(double)e,1,1e-8,"A06/prescribed value"); }
    }
    // matched interfaces stay closed
    for(auto bi:S.mp.topology().interfaces())
    {
        QP q=quadSide(S.basis.basis(bi.first().patch),bi.first().side(),2); Mat u2=ifcPoints(S.mp,bi,q.u);
        auto l=pts(def.patch(bi.first().patch),q.u,S.dim),r=pts(def.patch(bi.second().patch),u2,S.dim); double gap=0; for(size_t k=0;k<l.size();k++) for(int i=0;i<3;i++) gap=std::max(gap,std::abs((double)(l[k].x[i]-r[k].x[i])));
        if(S.cont==0) ctx.close(gap,0,1,1e-9,"A06/interface stays closed");
        else ctx.check(map.freeSize()+map.boundarySize()==tot,"A06/uncoupled patches keep their DoFs");
    }
    if(S.np()==1) ctx.check(map.freeSize()+map.boundarySize()==tot,"A06/all DoFs are free or prescribed");
    // all coefficients in one vector: component by component, patch by patch
    Vec full=a->fullSolutionVector(x); ctx.check(full.rows()==tot&&full.cols()==1,"A06/length of the full vector");
    { int k=0; for(int i=0;i<S.dim;i++)for(int p=0;p<S.np();p++){ Mat c=D.patch(p).coefs().col(i); ctx.closeM(Mat(full.block(k,0,c.rows(),1)),c,1,1e-13,"A06/full vector"); k+=c.rows(); } }
    // assembly from the vector is assembly at the deformed state
    if(okState(S,def,EX,0.6,1.7))
    {
        bool hom=ctx.s.flag(70); good(ctx,a->assembleVector(x,hom),"v"); Vec r1=a->rhs(); good(ctx,a->assembleVector(def,hom),"v"); Vec r2=a->rhs(); ctx.closeM(r1,r2,r2.cwiseAbs().maxCoeff()+1e-300,1e-10,"A06/vector from solution");
        good(ctx,a->assembleMatrix(x),"m"); SM K1=a->matrix(); good(ctx,a->assembleMatrix(def),"m"); ctx.close(scaleOf(sub(K1,SM(a->matrix()))),0,scaleOf(K1),1e-10,"A06/matrix from solution");
    }
    MP D2=a->constructDisplacement(x); for(int p=0;p<S.np();p++) ctx.closeM(D2.patch(p).coefs(),D.patch(p).coefs(),1,1e-13,"A06/displacement after assembly");
}
PROP(A06,coupled,80,"clamped or collapsed sides")
{
    ShellOpt o; o.hyper=false; o.bcs=false; o.pTHB=0; o.multi=ctx.s.flag(30); Shell S=shell(ctx,o); int n=ctx.s.range(1,2);
    for(int i=0;i<n;i++){ BCspec b; b.patch=ctx.s.draw(S.np()); b.side=boxSide(1+ctx.s.draw(4)); b.comp=ctx.s.range(0,S.dim-1); b.kind=0; b.val=0; b.type=ctx.s.flag(50)?condition_type::clamped:condition_type::collapsed; if(S.np()>1&&!S.mp.isBoundary(patchSide(b.patch,b.side))) continue; bool bad=false; for(auto&e:S.bcs) bad|=e.patch==b.patch&&e.side==b.side&&e.comp==b.comp; if(!bad) S.bcs.push_back(b); }
    S.applyBCs(); AsmP a=S.make(S.mat.get()); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0); ctx.nontrivial(S.bcs.size()>0);
    Vec x=rough(ctx.s,map.freeSize(),0.3); MP D=a->constructDisplacement(x); Vec y=a->constructSolutionVector(D); ctx.closeM(y,x,1,1e-15,"A06/round trip");
    for(auto&b:S.bcs){ auto l0=layer(S.basis.basis(b.patch),b.side,0),l1=layer(S.basis.basis(b.patch),b.side,1); const Mat&c=D.patch(b.patch).coefs();
        if(b.type==condition_type::clamped) for(size_t k=0;k<l0.size();k++) ctx.check(c(l0[k],b.comp)==c(l1[k],b.comp),"A06/clamped side has no slope");
        else for(size_t k=0;k<l0.size();k++) ctx.check(c(l0[k],b.comp)==c(l0[0],b.comp),"A06/collapsed side moves as one"); }
}
