// D02: dual-weighted residual estimates
#include "dwrgen.h"
using namespace gen;
static std::vector<R> local(const Dual&D,const MP*def,const MP&zL,const MP&zH,bool sq,bool loads,R&neu,std::vector<R>&scale)
{   // estimate per element of the fine basis; Neumann part apart
    const Shell&S=D.S; std::vector<R> out; scale.clear(); std::vector<size_t> first;
    for(int p=0;p<S.np();p++)
    {
        const gsBasis<real_t>&b=D.H.basis(p); auto B=boxes(b); size_t off=out.size(); first.push_back(off); out.resize(off+B.size(),0); scale.resize(out.size(),0);
        QP q=quad(b,1); auto o=pts(S.mp.patch(p),q.u,S.dim),vl=pts(zL.patch(p),q.u,S.dim),vh=pts(zH.patch(p),q.u,S.dim); std::vector<Pt> d; if(def) d=pts(def->patch(p),q.u,S.dim);
        for(size_t k=0;k<o.size();k++)
        {
            Pt v=comb(vh[k],-1,vl[k]); R J; normal(o[k],&J); double xx[3]; for(int i=0;i<3;i++) xx[i]= S.parForce? (i<2?q.u(i,k):0) : (double)o[k].x[i];
            V3 F=S.force(xx); R r=ref::dot(F,v.x),sc=std::abs(r); for(int i=0;i<3;i++) sc+=std::abs(F[i])*(std::abs(vh[k].x[i])+std::abs(vl[k].x[i]));
            if(def){ A3 N,M,e,kk; dstrains(d[k],v,e,kk); resultants(S.m,o[k],d[k],N,M); for(int a=0;a<3;a++){ R x=N[a]*e[a]+(S.bend?M[a]*kk[a]:0); r-=x; sc+=std::abs(N[a]*e[a])+(S.bend?std::abs(M[a]*kk[a]):0); R Aa=a<2?ref::dot(o[k].a[a],o[k].a[a]):std::sqrt(ref::dot(o[k].a[0],o[k].a[0])*ref::dot(o[k].a[1],o[k].a[1])); sc+=1e-4L*S.m.E.c0*S.m.t.c0/Aa*(std::abs(e[a])+(S.bend?S.m.t.c0*std::abs(kk[a]):0)); } }
            size_t el=off+boxOf(B,q.u(0,k),q.u(1,k)); out[el]+=q.w[k]*J*(sq?r*r:r); scale[el]+=q.w[k]*J*(sq?sc*sc:sc);
        }
    }
    neu=0; for(auto&n:S.neu){ QP q=quadSide(D.H.basis(n.patch),n.side,1); auto o=pts(S.mp.patch(n.patch),q.u,S.dim),vl=pts(zL.patch(n.patch),q.u,S.dim),vh=pts(zH.patch(n.patch),q.u,S.dim); int t=1-n.side.direction(); for(size_t k=0;k<o.size();k++){ double x3[3]={(double)o[k].x[0],(double)o[k].x[1],(double)o[k].x[2]}; R f=q.w[k]*std::sqrt(ref::dot(o[k].a[t],o[k].a[t]))*ref::dot(n.g(x3),vh[k].x-vl[k].x); neu+=f; scale[0]+=std::abs(f); } }
    if(loads) for(auto&l:S.pl)
    {
        Mat u(2,1); u<<l.xi[0],l.xi[1]; auto vl=pts(zL.patch(l.patch),u,S.dim),vh=pts(zH.patch(l.patch),u,S.dim); R f=0; for(int i=0;i<S.dim;i++) f+=l.v[i]*(vh[0].x[i]-vl[0].x[i]);
        auto B=boxes(D.H.basis(l.patch)); std::vector<size_t> el; for(size_t i=0;i<B.size();i++) if(B[i].has(l.xi[0],l.xi[1])) el.push_back(first[l.patch]+i);
        for(size_t e:el){ out[e]+=f/el.size(); scale[e]+=std::abs(f); }
    }
    return out;
}
static bool outer(const Shell&S,int p,int sd){ for(auto&i:S.mp.interfaces()) if(i.first()==patchSide(p,boxSide(sd))||i.second()==patchSide(p,boxSide(sd))) return false; return true; }
static R sum(const std::vector<R>&v){ R s=0; for(R x:v) s+=x; return s; }
PROP(D02,residual,60,"weights differ and there is a load or a strained state; non-trivial: nonzero estimate")
{
    Source&s=ctx.s; ShellOpt o; o.pressure=o.foundation=false; o.pMulti=30; o.perturb=0.05; Dual D=dual(ctx,o); Shell&S=D.S; for(auto&l:S.pl) l.parametric=true; if(S.pl.size()) D.a->setPointLoads(S.pointLoads()); DWR&a=*D.a;
    bool lin=s.flag(40),loads=s.flag(60); MP def=S.mp; if(!lin){ def=deformed(ctx,S,0.12,0.03); ctx.require(okState(D.high(),def,1,0.45,2.5)); } ctx.desc<<(lin?" linear":"")<<(loads?" loads":"");
    auto rnd=[&](const MB&b){ MP r; for(int p=0;p<S.np();p++){ Mat c(b.basis(p).size(),S.dim); Vec q=rough(s,c.size(),1.0); for(int i=0;i<c.size();i++) c.data()[i]=q(i,0); r.addPatch(b.basis(p).makeGeometry(give(c))); } return r; };
    MP zL=rnd(D.L),zH=rnd(D.H); if(s.flag(20)) a.assembleMatrixH(def); if(s.flag(20)) a.assembleMassL();
    int kind=s.draw(4); std::string tag=lin?" linear":" at a deformed state"; bool neuOK= loads||lin||!S.bend; R neu; std::vector<R> sc,ref_;
    if(kind==0)
    {
        if(!neuOK) ctx.require(S.neu.empty()); ref_=local(D,lin?0:&def,zL,zH,false,loads,neu,sc); double e=lin?a.computeError(zL,zH,loads):a.computeError(zL,zH,def,loads);
        ctx.close(e,(double)(sum(ref_)+neu),(double)sum(sc),S.m.mat==0?1e-9:1e-7,"D02/total"+tag); ctx.close(a.error(),e,std::abs(e),0,"D02/stored total"); ctx.nontrivial(std::abs(e)>1e-8*sum(sc)); ctx.label("total"); return;
    }
    bool sq=kind==3; if(sq){ loads=false; } ref_=local(D,lin?0:&def,zL,zH,sq,loads,neu,sc); std::string nm=sq?"D02/squared":"D02/elements"; ctx.label(sq?"squared":"elements");
    std::vector<real_t> e= sq? (lin?a.computeSquaredErrorElements(zL,zH,loads):a.computeSquaredErrorElements(zL,zH,def,loads)) : (lin?a.computeErrorElements(zL,zH,loads):a.computeErrorElements(zL,zH,def,loads));
    ctx.check(e.size()==ref_.size(),nm+" number"+tag,util::to_string(e.size())+" vs "+util::to_string(ref_.size())); R tot=sum(sc); R big=0;
    for(size_t i=0;i<e.size();i++){ ctx.close(e[i],(double)ref_[i],(double)(sc[i]+1e-6*tot),S.m.mat==0?1e-9:1e-7,nm+tag); big+=std::abs(e[i]); } ctx.close(a.error(),(double)sum(ref_),(double)tot,S.m.mat==0?1e-9:1e-7,nm+" sum"+tag);
    std::vector<real_t> st=a.errors(),ab=a.absErrors(); ctx.check(st==e,nm+" stored"); for(size_t i=0;i<e.size();i++) ctx.check(ab.at(i)==std::abs(e[i]),nm+" absolute values");
    if(sq&&S.neu.empty()){ double t=lin?a.computeSquaredError(zL,zH,false):a.computeSquaredError(zL,zH,def,false); ctx.close(t,(double)sum(ref_),(double)tot,S.m.mat==0?1e-9:1e-7,"D02/squared total"+tag); }
    ctx.nontrivial(big>1e-8*tot);
}
// duals solved by the helper
PROP(D02,helper,40,"goal with a nonzero dual; non-trivial: nonzero estimate")
{
    Source&s=ctx.s; ShellOpt o; o.pressure=o.foundation=false; o.pMulti=25; o.perturb=0.04; o.dim=3; o.bend=1; o.bcs=false; o.hyper=false; Dual D=dual(ctx,o); Shell&S=D.S; for(auto&l:S.pl) l.parametric=true;
    for(int p=0;p<S.np();p++)for(int sd=1;sd<=4;sd++) if(outer(S,p,sd)){ BCspec b; b.patch=p; b.side=boxSide(sd); b.comp=-1; b.kind=0; b.val=0; b.type=condition_type::dirichlet; S.bcs.push_back(b); if(s.flag(40)) break; }
    S.cont= S.np()>1?0:-1; S.applyBCs(); D.a=makeDWR(S,D.L,D.H,S.mat.get()); DWR&a=*D.a; MP def=deformed(ctx,S,0.02,0.003); bool vec=s.flag(30); gsVector<real_t> U; if(vec){ Vec x=rough(s,a.numDofsL(),0.01); U=x; def=add(S.mp,fieldIn(D.L,S,a.getMapperL(),x),1.0); } ctx.require(okState(D.high(),def,1,0.45,2.5)); 
    GF g=s.flag(50)?GF::Displacement:GF::MembraneStrain; int c=s.flag(30)?9:s.draw(3); a.setGoal(g,c); bool loads=s.flag(60)&&!vec; if(vec) ctx.desc<<" vector"; ctx.desc<<" goal="<<gname(g)<<c<<(loads?" loads":""); if(!loads) ctx.require(S.neu.empty());
    Mat points(2,0); std::vector<patchSide> sd; bool inner=s.flag(70); if(s.flag(30)){ points.resize(2,1); Mat sup=S.mp.patch(0).support(); for(int i=0;i<2;i++) points(i,0)=sup(i,0)+(sup(i,1)-sup(i,0))*s.real(0.1,0.9,0.4); } if(s.flag(30)) for(int k=1;k<=4;k++) if(outer(S,0,k)&&s.flag(50)) sd.push_back(patchSide(0,boxSide(k)));
    if(vec){ sd.clear(); points.resize(2,0); } if(!sd.size()&&!points.cols()) inner=true; gsBoxTopology::bContainer bnd(sd.begin(),sd.end()); ctx.desc<<" in="<<inner<<" pts="<<points.cols()<<" sides="<<sd.size(); MP pr=add(def,S.mp,-1.0); MP z[2];
    for(int h=0;h<2;h++)
    {
        Shell Q=h?D.high():D.low(); Q.bc.setGeoMap(S.mp); AsmP f=Q.make(S.mat.get(),false); ctx.require(f->numDofs()>0); good(ctx,f->assembleMatrix(def),"matrix"); Mat K=f->matrix().toDense(); Mat r=Mat::Zero(K.rows(),1);
        DWRP q=makeDWR(S,D.L,D.H,S.mat.get()); q->setGoal(g,c); auto get=[&](){ Mat v=h?q->dualH():q->dualL(); r+=v; };
        if(inner){ if(h) q->assembleDualH(pr,def); else q->assembleDualL(pr,def); get(); } if(bnd.size()){ if(h) q->assembleDualH(bnd,pr,def); else q->assembleDualL(bnd,pr,def); get(); } if(points.cols()){ if(h) q->assembleDualH(points,pr,def); else q->assembleDualL(points,pr,def); get(); }
        gsEigen::PartialPivLU<gsEigen::MatrixXd> lu(K); ctx.require(lu.rcond()>1e-9); Mat x=lu.solve(r); z[h]=fieldIn(h?D.H:D.L,S,f->getMapper(),x);
    }
    gsThinShellDWRHelper<real_t> hp(&a); std::stringstream sink; std::streambuf*old=gsInfo.rdbuf(sink.rdbuf()); try{ if(vec) hp.computeError(U); else if(inner&&!bnd.size()&&!points.cols()&&s.flag(50)){ if(!loads&&s.flag(50)) hp.computeError(def,pr); else hp.computeError(def,pr,loads); } else if(!loads&&s.flag(40)){ if(inner&&s.flag(50)) hp.computeError(def,pr,bnd,points); else hp.computeError(def,pr,bnd,points,inner); } else hp.computeError(def,pr,bnd,points,inner,loads); } catch(...) { gsInfo.rdbuf(old); throw; } gsInfo.rdbuf(old);
    R neu; std::vector<R> sc,e=local(D,&def,z[0],z[1],false,loads,neu,sc); R tot=sum(sc); ctx.close(hp.error(),(double)(sum(e)+neu),(double)tot,1e-6,"D02/helper total"); auto er=hp.errors(),ab=hp.absErrors(),no=hp.errors(true),an=hp.absErrors(true); ctx.check(er.size()==e.size(),"D02/helper number"); for(size_t i=0;i<e.size();i++){ ctx.close(er[i],(double)e[i],(double)tot,1e-6,"D02/helper elements"); ctx.check(ab[i]==std::abs(er[i]),"D02/helper absolute"); if(hp.error()!=0){ ctx.close(no[i],std::abs(er[i]/hp.error()),no[i],1e-12,"D02/helper normalised"); ctx.close(an[i],no[i],no[i],1e-12,"D02/helper normalised absolute"); } }
    if(!loads||S.pl.empty()){ e=local(D,&def,z[0],z[1],true,false,neu,sc); tot=sum(sc); auto q=hp.sqErrors(); for(size_t i=0;i<e.size();i++) ctx.close(q.at(i),(double)e[i],(double)tot,1e-6,"D02/helper squared"); if(hp.error()!=0){ auto n=hp.sqErrors(true); for(size_t i=0;i<e.size();i++) ctx.close(n.at(i),q[i]/(hp.error()*hp.error()),n[i],1e-12,"D02/helper squared normalised"); } }
    ctx.nontrivial(std::abs(hp.error())>1e-9*sum(sc)); 
}
// linear problem and linear goal: the estimate is the change of the goal from the coarse to the fine solution
PROP(D02,exact,40,"constrained flat shell with a load; non-trivial: the goal changes between the discretisations")
{
    Source&s=ctx.s; ShellOpt o; o.pressure=o.foundation=false; o.pMulti=25; o.perturb=0; o.flat=true; o.dim=3; o.bend=1; o.bcs=false; o.hyper=false; o.pPL=50; o.pTHB=0; Dual D=dual(ctx,o); Shell&S=D.S; for(auto&l:S.pl) l.parametric=true;
    for(int p=0;p<S.np();p++)for(int sd=1;sd<=4;sd++) if(outer(S,p,sd)&&!s.flag(30)){ BCspec b; b.patch=p; b.side=boxSide(sd); b.comp=-1; b.kind=0; b.val=0; b.type=condition_type::dirichlet; S.bcs.push_back(b); ctx.desc<<" fix"<<p<<":"<<sd; }
    S.cont= S.np()>1?0:-1; S.applyBCs(); D.a=makeDWR(S,D.L,D.H,S.mat.get()); DWR&a=*D.a; int c=s.draw(3); a.setGoal(GF::Displacement,c); ctx.desc<<" c="<<c; MP zero=S.mp; for(int p=0;p<S.np();p++) zero.patch(p).coefs().setZero(); double J[2]; MP z[2]; R sc=0;
    for(int h=0;h<2;h++)
    {
        ctx.require((h?a.numDofsH():a.numDofsL())>0); good(ctx,h?a.assembleMatrixH():a.assembleMatrixL(),"matrix"); good(ctx,h?a.assemblePrimalH():a.assemblePrimalL(),"vector"); Mat K=(h?a.matrixH():a.matrixL()).toDense(),F=h?a.primalH():a.primalL(); gsEigen::PartialPivLU<gsEigen::MatrixXd> lu(K); ctx.require(lu.rcond()>1e-7);
        good(ctx,h?a.assembleDualH(zero,S.mp):a.assembleDualL(zero,S.mp),"dual"); Mat r=h?a.dualH():a.dualL(); Mat x=lu.solve(F),y=lu.solve(r); gsVector<real_t> X=x,Y=y; MP u; if(h){ a.constructMultiPatchH(X,u); a.constructMultiPatchH(Y,z[h]); } else { a.constructMultiPatchL(X,u); a.constructMultiPatchL(Y,z[h]); }
        MP d; for(int p=0;p<S.np();p++){ const gsBasis<real_t>&b=(h?D.H:D.L).basis(p); Mat v=S.mp.patch(p).eval(b.anchors()); auto q=b.interpolateAtAnchors(v); q->coefs()+=u.patch(p).coefs(); d.addPatch(give(q)); }
        J[h]=a.computeGoal(d); for(int i=0;i<F.rows();i++) sc+=std::abs(F(i,0)*y(i,0));
    }
    double e=a.computeError(z[0],z[1],true); ctx.close(e,J[1]-J[0],(double)sc+std::abs(J[0])+std::abs(J[1])+1e-6,1e-8,"D02/estimate is the change of the goal"); ctx.nontrivial(std::abs(J[1]-J[0])>1e-6*(std::abs(J[0])+std::abs(J[1])));
}
