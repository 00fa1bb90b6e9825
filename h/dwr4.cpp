// D03: estimates of the error of eigenvalues (vibration, buckling)
#include "dwrgen.h"
using namespace gen;
struct El { std::vector<R> v,scale; void resize(size_t n){ v.resize(n,0); scale.resize(n,0); } R sum() const { R s=0; for(R x:v) s+=x; return s; } R tot() const { R s=0; for(R x:scale) s+=x; return s; } };
// sums a density over the elements of the fine basis
template<class F> static El elements(const Dual&D,const MP&def,const std::vector<const MP*>&fields,F f)
{
    const Shell&S=D.S; El E;
    for(int p=0;p<S.np();p++)
    {
        const gsBasis<real_t>&b=D.H.basis(p); auto B=boxes(b); size_t off=E.v.size(); E.resize(off+B.size()); QP q=quad(b,1); auto o=pts(S.mp.patch(p),q.u,S.dim),d=pts(def.patch(p),q.u,S.dim); std::vector<std::vector<Pt> > v; for(auto m:fields) v.push_back(pts(m->patch(p),q.u,S.dim));
        for(size_t k=0;k<o.size();k++)
        {
            std::vector<Pt> w; for(auto&x:v) w.push_back(x[k]); R J; normal(o[k],&J); Form G; f(o[k],d[k],w,q.w[k]*J,G); size_t e=off+boxOf(B,q.u(0,k),q.u(1,k)); E.v[e]+=G.val; E.scale[e]+=G.scale;
        }
    }
    return E;
}
static void addTo(Form&F,R c,const Form&G){ F.val+=c*G.val; F.scale+=std::abs(c)*G.scale; }
PROP(D03,eigen,40,"modes and weights differ; non-trivial: nonzero estimate")
{
    Source&s=ctx.s; ShellOpt o; o.pressure=o.foundation=o.loads=o.pointLoads=o.neumann=false; o.pMulti=30; o.perturb=0.05; o.dim=3; o.bend=1; o.maxKnots=1; Dual D=dual(ctx,o); Shell&S=D.S; DWR&a=*D.a; bool modal=s.flag(50); ctx.desc<<(modal?" modal":" buckling"); ctx.label(modal?"modal":"buckling");
    MP def=S.mp; if(!modal) def=deformed(ctx,S,0.12,0.03); ctx.require(okState(D.high(),def,1,0.45,2.5));
    auto rnd=[&](const MB&b){ MP r; for(int p=0;p<S.np();p++){ Mat c(b.basis(p).size(),S.dim); Vec q=rough(s,c.size(),1.0); for(int i=0;i<c.size();i++) c.data()[i]=q(i,0); r.addPatch(b.basis(p).makeGeometry(give(c))); } return r; };
    bool fine=s.flag(30); MP u=rnd(fine?D.H:D.L),zL=rnd(D.L),zH=rnd(D.H); a.setGoal(modal?GF::Modal:GF::Buckling); if(s.flag(20)) a.assembleMatrixH(def); if(s.flag(20)) a.assembleMassL(); double l=s.sym(3),lL=s.sym(3),lH=s.sym(3); ctx.desc<<" ev="<<l<<","<<lL<<","<<lH; double tol=S.m.mat==0?1e-9:1e-6;
    auto mass=[&](const Pt&x,const Pt&v,const Pt&w,R W,Form&F){ R c=W*(R)S.m.rho(x.x)*(R)S.m.t(x.x); for(int i=0;i<3;i++) F.add(c*v.x[i]*w.x[i]); };
    auto B=[&](const Stiff&s0,const Stiff&s1,const Pt&x,const Pt&d,const Pt&v,const Pt&w,R W,Form&F){ if(modal) mass(x,v,w,W,F); else { tangentPt(s1,true,d,v,w,W,true,F); Form G; tangentPt(s0,true,x,v,w,W,false,G); addTo(F,-1,G); } };
    auto st=[&](const Pt&x,const Pt&d,bool g){ return Stiff(S.m,true,x,d,g); };
    int kind=s.range(0,2); std::string t=modal?"D03/modal ":"D03/buckling "; std::vector<const MP*> f; f.push_back(&u); f.push_back(&zL); f.push_back(&zH);
    if(kind==0)
    {
        El E=elements(D,def,f,[&](const Pt&x,const Pt&d,const std::vector<Pt>&v,R W,Form&F){ Stiff s0=st(x,x,false),s1=modal?s0:st(x,d,true); B(s0,s1,x,d,v[0],v[2],W,F); }); double g=modal?a.matrixNorm(u,zH):a.matrixNorm(u,zH,def); ctx.close(g,(double)E.sum(),(double)E.tot(),tol,t+"product"); ctx.nontrivial(std::abs(g)>1e-8*E.tot()); return;
    }
    El E=elements(D,def,f,[&](const Pt&x,const Pt&d,const std::vector<Pt>&v,R W,Form&F){ Pt z=comb(v[2],-1,v[1]); Form A,Bd,Bp; Stiff s0=st(x,x,false),s1=modal?s0:st(x,d,true); tangentPt(s0,true,x,v[0],z,W,false,A); B(s0,s1,x,d,v[0],z,W,Bd); B(s0,s1,x,d,v[0],v[0],W,Bp); addTo(F,1,A); addTo(F,-l,Bd); addTo(F,(R)lH-(R)lL,Bp); });
    R tot=E.tot(),want=E.sum()-((R)lH-(R)lL);
    if(kind==1){ double e=modal?a.computeErrorEig(l,lL,lH,zL,zH,u):a.computeErrorEig(l,lL,lH,zL,zH,u,def); ctx.close(e,(double)want,(double)(tot+std::abs(lH-lL)),tol,t+"total"); ctx.close(a.error(),e,std::abs(e),0,t+"stored"); }
    else { std::vector<real_t> e=modal?a.computeErrorEigElements(l,lL,lH,zL,zH,u):a.computeErrorEigElements(l,lL,lH,zL,zH,u,def); ctx.check(e.size()==E.v.size(),t+"number"); for(size_t i=0;i<e.size();i++) ctx.close(e[i],(double)E.v[i],(double)(E.scale[i]+1e-6L*tot),tol,t+"elements"); ctx.close(a.error(),(double)want,(double)(tot+std::abs(lH-lL)),tol,t+"sum"); auto ab=a.absErrors(); for(size_t i=0;i<e.size();i++) ctx.check(ab.at(i)==std::abs(e[i]),t+"absolute"); }
    ctx.nontrivial(std::abs(want)>1e-8*tot);
}
