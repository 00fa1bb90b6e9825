// D01: goal functionals and their derivatives
#include "dwrgen.h"
using namespace gen;
// components of the quantity at a point
static int ncomp(GF g,int dim){ return g==GF::Displacement?dim: g==GF::PStress||g==GF::Stretch||g==GF::PStrain?2:3; }
static void quantity(const MatSpec&m,GF g,const Pt&o,const Pt&d,R q[3])
{
    q[0]=q[1]=q[2]=0; A3 e,k; ref::Surf so=asSurf(o),sd=asSurf(d); M2 L=ref::chol(so.A),Li=ref::inv(L),Q;
    auto eig=[&](const M2&T,R w[2]){ M2 C=ref::mul(ref::mul(Li,T),ref::tr(Li)); ref::eig2(C,w,Q); };
    auto S0=[&](){ if(m.mat==0){ R C[3][3]; ref::linearC(m.E(o.x),m.nu(o.x),ref::inv(so.A),C); strains(o,d,e,k); R s[3]={0,0,0}; for(int a=0;a<3;a++)for(int b=0;b<3;b++) s[a]+=C[a][b]*e[b]; return M2{{{s[0],s[2]},{s[2],s[1]}}}; } return ref::stress(m.law(o.x),so.A,sd.A); };
    switch(g)
    {
        case GF::Displacement: for(int i=0;i<3;i++) q[i]=d.x[i]-o.x[i]; break;
        case GF::Stretch: eig(sd.A,q); break;
        case GF::PStrain: eig(ref::lin(0.5L,sd.A,-0.5L,so.A),q); break;
        case GF::PStress: { M2 s=S0(),C=ref::mul(ref::mul(ref::tr(L),s),L); C(0,1)=C(1,0)=(C(0,1)+C(1,0))/2; ref::eig2(C,q,Q); break; }
        case GF::MembraneStrain: strains(o,d,e,k); for(int i=0;i<3;i++) q[i]=e[i]; break;
        case GF::FlexuralStrain: strains(o,d,e,k); for(int i=0;i<3;i++) q[i]=k[i]; break;
        case GF::MembraneStress: { auto v=ref::voigt(S0()); for(int i=0;i<3;i++) q[i]=v[i]; break; }
        case GF::FlexuralStress: { R C[3][3]; ref::linearC(m.E(o.x),m.nu(o.x),ref::inv(so.A),C); strains(o,d,e,k); for(int a=0;a<3;a++)for(int b=0;b<3;b++) q[a]+=C[a][b]*k[b]; break; }
        case GF::MembraneForce: case GF::FlexuralMoment: { A3 N,M; resultants(m,o,d,N,M); for(int i=0;i<3;i++) q[i]=g==GF::MembraneForce?N[i]:M[i]; break; }
        default: break;
    }
}
static R density(const MatSpec&m,GF g,int c,const Pt&o,const Pt&d){ R q[3]; quantity(m,g,o,d,q); return c==9? q[0]*q[0]+q[1]*q[1]+q[2]*q[2] : q[c]; }
// derivative of the density along v, and a scale for its rounding
static R ddensity(const MatSpec&m,GF g,int c,const Pt&o,const Pt&d,const Pt&v,R&scale)
{
    R nv=0; for(int i=0;i<2;i++) nv=std::max(nv,std::sqrt(ref::dot(v.a[i],v.a[i])/ref::dot(d.a[i],d.a[i]))); for(int i=0;i<3;i++) nv=std::max(nv,std::sqrt(ref::dot(v.dd[i],v.dd[i]))/(1+std::sqrt(ref::dot(d.dd[i],d.dd[i])))); R h=nv>0?2e-4L/nv:1;
    R f1=density(m,g,c,o,comb(d,h,v)),f2=density(m,g,c,o,comb(d,-h,v)),f3=density(m,g,c,o,comb(d,2*h,v)),f4=density(m,g,c,o,comb(d,-2*h,v)); scale+=std::abs(f1-f2)/h;
    return (8*(f1-f2)-(f3-f4))/(12*h);
}
struct Region { int kind=0; std::vector<patchSide> sides; Mat pts; };  // 0 domain, 1 sides, 2 points of the first patch
template<class F> static R over(const Shell&S,const MB&b,const Region&r,F f) // f(patch,u,k) times the measure of the undeformed surface (points: too), on sides of the undeformed side
{
    R v=0; auto run=[&](int p,const Mat&u,const std::vector<R>&w,int t=-1){ auto o=pts(S.mp.patch(p),u,S.dim); for(int k=0;k<u.cols();k++){ R J; normal(o[k],&J); if(t>=0) J=std::sqrt(ref::dot(o[k].a[t],o[k].a[t])); v+=w[k]*J*f(p,u.col(k),o[k]); } };
    if(r.kind==0) for(int p=0;p<S.np();p++){ QP q=quad(b.basis(p),1); run(p,q.u,q.w); }
    else if(r.kind==1) for(auto&s:r.sides){ QP q=quadSide(b.basis(s.patch),s.side(),1); run(s.patch,q.u,q.w,1-s.side().direction()); }
    else run(0,r.pts,std::vector<R>(r.pts.cols(),1));
    return v;
}
static Region region(Ctx&ctx,const Shell&S)
{
    Source&s=ctx.s; Region r; r.kind=s.range(0,2); ctx.desc<<" over="<<r.kind;
    if(r.kind==1){ int n=s.range(0,2); for(int i=0;i<n;i++){ patchSide q(s.draw(S.np()),boxSide(1+s.draw(4))); bool bad=!S.mp.isBoundary(q)&&S.np()>1; for(auto&e:r.sides) bad|=e==q; if(!bad){ r.sides.push_back(q); ctx.desc<<" "<<q.patch<<":"<<q.side(); } } }
    if(r.kind==2){ int n=hier(S.basis.basis(0))?1+s.range(0,2):s.range(0,3); /* the core's hierarchical bases cannot evaluate at no points */ Mat sup=S.mp.patch(0).support(); r.pts.resize(2,n); for(int k=0;k<n;k++)for(int i=0;i<2;i++) r.pts(i,k)=sup(i,0)+(sup(i,1)-sup(i,0))*s.real(0,1,0.47); }
    return r;
}
static bool separated(const Shell&S,const MB&b,const Region&r,const MP&def,GF g)
{
    if(g!=GF::Stretch&&g!=GF::PStrain&&g!=GF::PStress) return true; bool ok=true;
    over(S,b,r,[&](int p,const Mat&u,const Pt&o){ R q[3]; Pt d=pts(def.patch(p),u,S.dim)[0]; quantity(S.m,g,o,d,q); R sc=g==GF::PStress?(R)S.m.E.c0:1; if(!(std::abs(q[1]-q[0])>5e-3*sc)) ok=false; return (R)0; }); return ok;
}
static Vec field1(Source&s,const gsDofMapper&m){ return rough(s,m.freeSize(),1.0); }
PROP(D01,goal,400,"deformed state with strain > 1e-3; any quantity, component and region")
{
    Source&s=ctx.s; ShellOpt o; o.pressure=o.foundation=o.pointLoads=o.neumann=o.loads=false; o.pMulti=30; o.perturb=0.05; o.dim=3; Dual D=dual(ctx,o); Shell&S=D.S;
    GF g=GOALS[s.draw(10)]; int c=s.flag(40)?9:s.draw(std::min(ncomp(g,S.dim),S.dim)); ctx.desc<<" goal="<<gname(g)<<"/"<<c; ctx.label(gname(g));
    ctx.require(!(S.dim==2&&flexural(g))); if(g==GF::FlexuralStress||g==GF::FlexuralMoment||(g==GF::MembraneForce&&S.dim==3)) ctx.require(S.m.mat==0);
    Region r=region(ctx,S); MP def=deformed(ctx,S,0.15,0.03); ctx.require(okState(S,def,1,0.45,2.5)&&okState(S,def,2,0.45,2.5)&&okState(D.high(),def,1,0.45,2.5));
    if(r.kind) { bool ok=true; over(S,D.H,r,[&](int p,const Mat&u,const Pt&x){ Scene sc; sc.dim=S.dim; sc.m=S.m; sc.u=u; sc.z=Mat::Zero(1,1); sc.so.push_back(asSurf(x)); sc.sd.push_back(asSurf(pts(def.patch(p),u,S.dim)[0])); ok&=admissible(sc,0.45,2.5); return (R)0; }); over(S,D.L,r,[&](int p,const Mat&u,const Pt&x){ Scene sc; sc.dim=S.dim; sc.m=S.m; sc.u=u; sc.z=Mat::Zero(1,1); sc.so.push_back(asSurf(x)); sc.sd.push_back(asSurf(pts(def.patch(p),u,S.dim)[0])); ok&=admissible(sc,0.45,2.5); return (R)0; }); ctx.require(ok); }
    MP prim=add(def,S.mp,-1.0); DWR&a=*D.a; a.setGoal(g,c); std::string tag=std::string(gname(g))+(c==9?" norm":" component")+(r.kind==0?"":r.kind==1?" sides":" points");
    std::vector<patchSide>&sd=r.sides; gsBoxTopology::bContainer bc(sd.begin(),sd.end());
    bool first=s.flag(30); if(first) a.assembleMatrixL(def);
    double G= r.kind==0?a.computeGoal(def): r.kind==1?a.computeGoal(bc,def):a.computeGoal(r.pts,def); R gs=1e-12L,gr=over(S,D.H,r,[&](int p,const Mat&u,const Pt&x){ R v=density(S.m,g,c,x,pts(def.patch(p),u,S.dim)[0]); gs+=std::abs(v); return v; });
    R base= g==GF::PStress||g==GF::MembraneStress||g==GF::FlexuralStress? S.m.E.c0 : g==GF::MembraneForce? S.m.E.c0*S.m.t.c0 : g==GF::FlexuralMoment? S.m.E.c0*std::pow(S.m.t.c0,3): 1; if(c==9) base*=base;
    ctx.close(G,(double)gr,(double)(gs+1e-3L*base),1e-7,"D01/goal "+tag);
    bool sep=c==9||separated(S,D.H,r,def,g)&&separated(S,D.L,r,def,g); bool strained=false; over(S,D.H,r,[&](int p,const Mat&u,const Pt&x){ A3 e,k; strains(x,pts(def.patch(p),u,S.dim)[0],e,k); strained|=std::abs(e[0])+std::abs(e[1])+std::abs(e[2])>1e-3; return (R)0; }); ctx.nontrivial(strained&&sep);
    if(!sep) return;
    for(int side=0;side<2;side++)
    {
        const MB&b=side?D.H:D.L; bool given=s.flag(50); ThinShellAssemblerStatus st;
        if(r.kind==0) st= side? (given?a.assembleDualH(prim,def):a.assembleDualH(prim)) : (given?a.assembleDualL(prim,def):a.assembleDualL(prim));
        else if(r.kind==1) st= side? (given?a.assembleDualH(bc,prim,def):a.assembleDualH(bc,prim)) : (given?a.assembleDualL(bc,prim,def):a.assembleDualL(bc,prim));
        else st= side? (given?a.assembleDualH(r.pts,prim,def):a.assembleDualH(r.pts,prim)) : (given?a.assembleDualL(r.pts,prim,def):a.assembleDualL(r.pts,prim));
        good(ctx,st,"dual"); Mat dv=side?a.dualH():a.dualL(); int n=side?a.numDofsH():a.numDofsL(); ctx.check(dv.rows()==n,"D01/size of the dual "+tag); 
        gsDofMapper map=side?a.getMapperH():a.getMapperL(); ctx.check(map.freeSize()==n,"D01/mapper");
        for(int rep=0;rep<2;rep++)
        {
            Vec x=field1(s,map); MP v=fieldIn(b,S,map,x); R sc=0,ref_=over(S,b,r,[&](int p,const Mat&u,const Pt&y){ return ddensity(S.m,g,c,y,pts(def.patch(p),u,S.dim)[0],pts(v.patch(p),u,S.dim)[0],sc); });
            double got=0,gsum=0; for(int i=0;i<n;i++){ got+=dv(i,0)*x(i,0); gsum+=std::abs(dv(i,0)*x(i,0)); }
            ctx.close(got,(double)ref_,(double)(sc+1e-2L*base)+gsum,S.m.mat==0?1e-8:1e-6,"D01/dual "+tag);
        }
    }
}
