// A01-A04: residual, tangent, linear system, separate load terms
#include "shellgen.h"
using namespace gen;
typedef gsSparseMatrix<real_t> SM;
static const int EX=4;   // the quadrature of the assembler is set to degree+4 points
static double vdot(const Vec&a,const Vec&b){ return (a.transpose()*b)(0,0); }

static double maxAbs(const MP&a,const MP&b){ double m=0; for(size_t p=0;p<a.nPatches();p++) m=std::max(m,(a.patch(p).coefs()-b.patch(p).coefs()).cwiseAbs().maxCoeff()); return m; }
PROP(A01,residual,200,"deformed state with strain > 1e-3 and a test direction not identically zero")
{
    ShellOpt o; Shell S=shell(ctx,o); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get(),ctx.s.flag(50)); good(ctx,a->assembleVector(def),"assembleVector");
    gsDofMapper map=a->getMapper(); Vec rhs=a->rhs(); ctx.check(rhs.rows()==map.freeSize()&&rhs.cols()==1&&a->numDofs()==map.freeSize(),"A01/size");
    ctx.require(map.freeSize()>0);
    for(int r=0;r<2;r++)
    {
        Vec x=rough(ctx.s,rhs.rows(),1.0); if(r==1){ int k=ctx.s.draw(rhs.rows()); x.setZero(); x(k,0)=1; }
        MP v=fieldOf(S,map,x); Work W=virtualWork(S,def,v,EX); ctx.nontrivial(std::abs((double)W.in)>1e-3*W.scale&&W.scale>0);
        ctx.close(vdot(x,rhs),(double)W.total(),(double)W.scale+1e-300,S.physPL()?1e-4:S.m.mat?1e-6:1e-8,"A01/residual",r?"single DoF":"random direction");
    }
}
static double scaleOf(const SM&K){ double m=0; for(int k=0;k<K.outerSize();++k) for(SM::InnerIterator it(K,k);it;++it) m=std::max(m,std::abs(it.value())); return m; }

PROP(A02,tangent,120,"deformed state with non-zero resultants, two random directions")
{
    ShellOpt o; o.maxKnots=1; Shell S=shell(ctx,o); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get(),ctx.s.flag(50)); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0);
    good(ctx,a->assembleMatrix(def),"assembleMatrix"); SM K=a->matrix(); ctx.check(K.rows()==map.freeSize()&&K.cols()==K.rows(),"A02/size");
    Vec x=rough(ctx.s,K.rows(),1.0),y=rough(ctx.s,K.rows(),1.0); if(ctx.s.flag(40)){ int k=ctx.s.draw(K.rows()); x.setZero(); x(k,0)=1; }
    MP v=fieldOf(S,map,x),w=fieldOf(S,map,y); Form F=tangentForm(S,def,v,w,EX); ctx.nontrivial(F.scale>0&&maxAbs(def,S.mp)>1e-3);
    ctx.close(vdot(x,K*y),(double)F.val,(double)F.scale,S.m.mat?1e-6:1e-8,"A02/tangent");
    // without follower loads the tangent is symmetric
    if(!S.hasPress||S.press.c0==0){ SM D=K-SM(K.transpose()); ctx.close(scaleOf(D),0,scaleOf(K),1e-9,"A02/symmetric"); }
}
PROP(A02,derivative,80,"linear law: central differences of the module's own residual")
{
    ShellOpt o; o.hyper=false; Shell S=shell(ctx,o); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get()); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0);
    good(ctx,a->assembleMatrix(def),"assembleMatrix"); SM K=a->matrix(); Vec y=rough(ctx.s,K.rows(),1.0); MP w=fieldOf(S,map,y); double h=1e-4;
    auto r=[&](double f){ good(ctx,a->assembleVector(add(def,w,f)),"assembleVector"); return Vec(a->rhs()); };
    Vec d=(8*(r(h)-r(-h))-(r(2*h)-r(-2*h)))/(12*h), k=K*y; ctx.nontrivial(maxAbs(def,S.mp)>1e-3);
    ctx.closeM(k,Vec(-d),K.rows()?scaleOf(K):1,1e-6,"A02/derivative");
}
// tangent of the mixed-integration-point method: strains, constitutive tangents and loads at the deformed state, resultants linearised about the previous one
PROP(A02,mixed,25,"previous state and update that differ from the deformed state and zero")
{
    ShellOpt o; o.maxKnots=1; o.dim=3; o.bend=1; Shell S=shell(ctx,o); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get(),ctx.s.flag(50)); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0); int n=map.freeSize(),mode=ctx.s.draw(3); MP prev=def; Vec up=Vec::Zero(n,1); SM K;
    if(mode==0){ good(ctx,a->assembleMatrix(def,prev,up),"assembleMatrix"); }
    else if(mode==1){ prev=deformed(ctx,S); up=rough(ctx.s,n,0.1); ctx.require(okState(S,prev,EX,0.5,2.0)); good(ctx,a->assembleMatrix(def,prev,up),"assembleMatrix"); }
    else { Vec s1=rough(ctx.s,n,0.05),s0=rough(ctx.s,n,0.05); def=a->constructSolution(s1); prev=a->constructSolution(s0); up=s1-s0; ctx.require(okState(S,prev,EX,0.5,2.0)&&okState(S,def,EX,0.5,2.0)); good(ctx,a->assembleMatrix(s1,s0),"assembleMatrix"); }
    ctx.label(mode==0?"same":mode==1?"given":"vectors"); K=a->matrix(); ctx.check(K.rows()==n&&K.cols()==n,"A02/mixed/size");
    Vec x=rough(ctx.s,n,1.0),y=rough(ctx.s,n,1.0); if(ctx.s.flag(40)){ int k=ctx.s.draw(n); x.setZero(); x(k,0)=1; } MP v=fieldOf(S,map,x),w=fieldOf(S,map,y),du=fieldOf(S,map,up); ctx.nontrivial(mode>0&&maxAbs(def,prev)>1e-3);
    Form F=tangentForm(S,def,v,w,EX,[&](int p,const Mat&u,std::vector<Pt>&q,std::vector<Pt>&t){ q=pts(prev.patch(p),u,3); t=pts(du.patch(p),u,3); });
    ctx.close(vdot(x,K*y),(double)F.val,(double)F.scale,S.m.mat?1e-6:1e-8,"A02/mixed tangent");
}
PROP(A03,linear,60,"loads and at least one free DoF")
{
    ShellOpt o; o.maxKnots=1; Shell S=shell(ctx,o); ctx.require(okState(S,S.mp,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get(),ctx.s.flag(50)); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0);
    good(ctx,a->assemble(),"assemble"); SM K=a->matrix(); Vec f=a->rhs(); ctx.check(K.rows()==map.freeSize()&&K.cols()==K.rows()&&f.rows()==K.rows()&&f.cols()==1,"A03/size");
    Vec x=rough(ctx.s,K.rows(),1.0),y=rough(ctx.s,K.rows(),1.0);
    MP v=fieldOf(S,map,x),w=fieldOf(S,map,y),g=liftOf(*a,map); Form F=tangentForm(S,S.mp,v,w,EX,false,false);
    double tol=S.physPL()?1e-4:S.m.mat?1e-6:1e-8; ctx.nontrivial(F.scale>0);
    ctx.close(vdot(x,K*y),(double)F.val,(double)F.scale,tol,"A03/matrix");
    Form G=tangentForm(S,S.mp,v,g,EX,false,false); Work W=virtualWork(S,S.mp,v,EX);
    ctx.close(vdot(x,f),(double)(W.ext()-G.val),(double)(W.scale+G.scale),tol,"A03/rhs");
    SM D=K-SM(K.transpose()); ctx.close(scaleOf(D),0,scaleOf(K),1e-10,"A03/symmetric");
    ctx.check(vdot(y,K*y)>=-1e-10*scaleOf(K)*vdot(y,y),"A03/semidefinite");
    // agreement with the nonlinear forms at the undeformed state
    if(!S.hasPress||S.press.c0==0)
    { good(ctx,a->assembleMatrix(S.mp),"assembleMatrix"); SM K2=a->matrix(); SM E=K-K2; ctx.close(scaleOf(E),0,scaleOf(K),1e-9,"A03/equals tangent at rest"); }
    good(ctx,a->assembleVector(S.mp),"assembleVector"); Vec r=a->rhs(); ctx.close(vdot(x,r),(double)W.ext(),(double)W.scale,tol,"A03/residual at rest is the load");
}
PROP(A03,rigid,80,"free shell, infinitesimal and finite rigid motions")
{
    ShellOpt o; o.bcs=o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=false; Shell S=shell(ctx,o); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0)&&okState(S,S.mp,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get()); gsDofMapper map=a->getMapper(); int d=S.dim; if(S.cont==0){ def=add(S.mp,a->constructDisplacement(a->constructSolutionVector(add(def,S.mp,-1))),1); ctx.require(okState(S,def,EX,0.5,2.0)); } ctx.nontrivial(maxAbs(def,S.mp)>1e-3);
    auto mode=[&](const MP&g,int m){ MP r=g; for(int p=0;p<S.np();p++){ Mat c=g.patch(p).coefs(),q=Mat::Zero(c.rows(),d); if(m<d) q.col(m).setOnes(); else { int i=(m-d+1)%d,j=d==2?(m-d)%d:(m-d+2)%d; if(d==2){i=0;j=1;} q.col(i)=-c.col(j); q.col(j)=c.col(i); } r.patch(p).coefs()=q; } return r; };
    int nm=d==2?3:6; good(ctx,a->assemble(),"assemble"); SM K=a->matrix();
    for(int m=0;m<nm;m++){ Vec x=a->constructSolutionVector(mode(S.mp,m)); Vec k=K*x; ctx.close(k.cwiseAbs().maxCoeff(),0,scaleOf(K)*std::max(1.0,x.cwiseAbs().maxCoeff()),1e-9,"A03/rigid mode",std::to_string(m)); }
    good(ctx,a->assembleVector(def),"assembleVector"); Vec r=a->rhs(); double sc=r.cwiseAbs().sum();
    // the internal forces of any deformed state are in equilibrium
    double tolE=S.m.mat?1e-5:1e-8;
    for(int m=0;m<nm;m++){ Vec x=a->constructSolutionVector(mode(def,m)); ctx.close(vdot(x,r),0,(sc+1e-6*scaleOf(K))*std::max(1.0,x.cwiseAbs().maxCoeff()),tolE,"A03/equilibrium",std::to_string(m)); }
    // objectivity: a superposed finite rotation turns the forces
    if(d==3){ Mat3 q=rotation(ctx.s); MP def2=def; for(int p=0;p<S.np();p++) rotate(def2.patch(p).coefs(),q); good(ctx,a->assembleVector(def2),"assembleVector"); Vec r2=a->rhs();
      MP f1=fieldOf(S,map,r),f2=fieldOf(S,map,r2); for(int p=0;p<S.np();p++){ rotate(f1.patch(p).coefs(),q); ctx.closeM(f2.patch(p).coefs(),f1.patch(p).coefs(),sc+1e-6*scaleOf(K),1e-9,"A03/objective"); } }
}
PROP(A04,separate,80,"pressure/foundation terms assembled separately at a deformed state")
{
    ShellOpt o; o.dim=3; o.pressure=o.foundation=false; o.pPL=60; Shell S=shell(ctx,o); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0));
    double E=S.m.E.c0*S.m.t.c0; bool constP=ctx.s.flag(40); Field p; p.dim=3; p.c0=0.2*E*ctx.s.real(0.1,1); if(!constP) p.c[0]=0.3*p.c0; p.make(); VField k=vfield(ctx.s,3,3,E,true,true);
    gsFunction<real_t>&pf=static_cast<gsFunction<real_t>&>(*p.fn);
    AsmP a=S.make(S.mat.get()); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0); ctx.nontrivial();
    Shell P=S; P.hasPress=true; P.press=p; Shell Fd=S; Fd.hasFound=true; Fd.found=k; AsmP ap=P.make(S.mat.get()), af=Fd.make(S.mat.get());
    auto vec=[&](Asm&q){ return Vec(q.rhs()); }; auto mat=[&](Asm&q){ return SM(q.matrix()); };
    int w=ctx.s.range(0,6); ctx.label(std::to_string(w));
    auto cmpV=[&](const Vec&x,const Vec&y,const char*n){ ctx.closeM(x,y,std::max(x.cwiseAbs().maxCoeff(),y.cwiseAbs().maxCoeff())+1e-300,1e-11,n); };
    auto cmpM=[&](const SM&x,const SM&y,const char*n){ SM D=x-y; ctx.close(scaleOf(D),0,scaleOf(y),1e-11,n); };
    if(w==0){ good(ctx,a->assembleVector(def),"v"); good(ctx,constP?a->assemblePressureVector(p.c0,def):a->assemblePressureVector(pf,def),"p"); good(ctx,ap->assembleVector(def),"v"); cmpV(vec(*a),vec(*ap),"A04/pressure vector"); }
    if(w==1){ good(ctx,a->assembleMatrix(def),"m"); good(ctx,constP?a->assemblePressureMatrix(p.c0,def):a->assemblePressureMatrix(pf,def),"p"); good(ctx,ap->assembleMatrix(def),"m"); cmpM(mat(*a),mat(*ap),"A04/pressure matrix"); }
    if(w==2){ good(ctx,a->assemble(),"a"); good(ctx,constP?a->assemblePressureVector(p.c0):a->assemblePressureVector(pf),"p"); good(ctx,constP?a->assemblePressureMatrix(p.c0):a->assemblePressureMatrix(pf),"p"); good(ctx,ap->assemble(),"a"); cmpV(vec(*a),vec(*ap),"A04/linear pressure vector"); cmpM(mat(*a),mat(*ap),"A04/linear pressure matrix"); }
    if(w==3){ good(ctx,a->assembleVector(def),"v"); gsThinShellAssembler<3,real_t,true>*b=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(a.get()); gsThinShellAssembler<3,real_t,false>*m=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(a.get());
        good(ctx,b?b->assembleFoundationVector(*k.f(),def):m->assembleFoundationVector(*k.f(),def),"f"); good(ctx,af->assembleVector(def),"v"); cmpV(vec(*a),vec(*af),"A04/foundation vector"); }
    if(w==4)
    {   // legacy: only the foundation matrix
        good(ctx,af->assembleFoundation(),"assembleFoundation"); SM M=mat(*af); Vec x=rough(ctx.s,M.rows(),1.0),y=rough(ctx.s,M.rows(),1.0); MP v=fieldOf(S,map,x),u=fieldOf(S,map,y); Form F;
        for(int q=0;q<S.np();q++){ QP Q=quad(S.basis.basis(q),EX); auto o=pts(S.mp.patch(q),Q.u,3),vv=pts(v.patch(q),Q.u,3),uu=pts(u.patch(q),Q.u,3); for(size_t i=0;i<o.size();i++){ R J; normal(o[i],&J); double x3[3]={(double)o[i].x[0],(double)o[i].x[1],(double)o[i].x[2]}; V3 kf=k(x3); for(int c=0;c<3;c++) F.add(Q.w[i]*J*kf[c]*vv[i].x[c]*uu[i].x[c]); } }
        ctx.close(vdot(x,M*y),(double)F.val,(double)F.scale,1e-9,"A04/foundation matrix");
    }
    if(w==5)
    {   // the residual is affine in the loads
        double al=ctx.s.real(-2,2,1.0); good(ctx,a->assembleVector(def),"v"); Vec r1=vec(*a); Shell Z=S; Z.force=VField(); Z.force.dim=3; Z.force.arg=3; Z.parForce=false; Z.force.make(); Z.neu.clear(); Z.pl.clear(); Z.applyBCs(); AsmP z=Z.make(S.mat.get()); good(ctx,z->assembleVector(def),"v"); Vec r0=vec(*z);
        Shell Q=S; for(auto&r:Q.force.c) for(double&x:r) x*=al; Q.force.make(); for(auto&n:Q.neu){ for(auto&r:n.g.c) for(double&x:r) x*=al; n.g.make(); } for(auto&l:Q.pl) for(double&x:l.v) x*=al; Q.applyBCs(); AsmP q=Q.make(S.mat.get()); good(ctx,q->assembleVector(def),"v"); Vec r2=vec(*q);
        Vec e=r0+al*(r1-r0); ctx.closeM(r2,e,std::max(r1.cwiseAbs().maxCoeff(),r0.cwiseAbs().maxCoeff())*3+1e-300,1e-10,"A04/affine in the loads");
    }
    if(w==6)
    {   // matrix and vector in one call
        good(ctx,ap->assemble(def),"assemble(def)"); SM M=mat(*ap); Vec r=vec(*ap); good(ctx,ap->assembleMatrix(def),"m"); cmpM(mat(*ap),M,"A04/one call matrix"); good(ctx,ap->assembleVector(def),"v"); cmpV(vec(*ap),r,"A04/one call vector");
    }
}
