// Generators and reference for the shell assembler
#pragma once
#include "matgen.h"
#include <functional>
#include <set>
#include <gsKLShell/src/gsThinShellAssembler.h>
#include <gsKLShell/src/gsMaterialMatrixTFT.h>
#include <gsAssembler/gsExprAssembler.h>
namespace gen {
typedef gsThinShellAssemblerBase<real_t> Asm;
typedef std::unique_ptr<Asm> AsmP;
typedef gsMultiPatch<real_t> MP;
typedef gsMatrix<real_t> Vec;

// vector field, affine in its argument: value, and as core function. Argument: physical point or parameter
struct VField {
    int dim=3, arg=3; double c[3][4]={{0}}; std::shared_ptr<gsFunctionSet<real_t> > fn; gsFunction<real_t>*f() const { return static_cast<gsFunction<real_t>*>(fn.get()); }
    V3 operator()(const double*x) const { V3 r{{0,0,0}}; for(int i=0;i<dim;i++){ r[i]=c[i][0]; for(int j=0;j<arg;j++) r[i]+=c[i][1+j]*x[j]; } return r; }
    bool constant() const { for(int i=0;i<dim;i++)for(int j=0;j<arg;j++) if(c[i][1+j]!=0) return false; return true; }
    void make()
    {
        std::vector<std::string> e; static const char*X[]={"x","y","z"};
        for(int i=0;i<dim;i++){ std::string q=num(c[i][0]); for(int j=0;j<arg;j++) if(c[i][1+j]!=0) q+="+("+num(c[i][1+j])+")*"+X[j]; e.push_back(q); }
        if(constant()){ gsVector<real_t> v(dim); for(int i=0;i<dim;i++) v[i]=c[i][0]; fn.reset(new gsConstantFunction<real_t>(v,arg)); }
        else fn.reset(new gsFunctionExpr<real_t>(e,arg));
    }
};
inline VField vfield(Source&s,int dim,int arg,double mag,bool var=true,bool positive=false)
{
    VField f; f.dim=dim; f.arg=arg; bool v=var&&s.flag(50);
    for(int i=0;i<dim;i++){ f.c[i][0]= positive? mag*s.real(0.0,1.0,0.5) : mag*s.sym(1.0); if(v) for(int j=0;j<arg;j++) f.c[i][1+j]=0.2*mag*s.sym(positive?0.2:1.0); }
    f.make(); return f;
}

struct BCspec { int patch; boxSide side; int type; int comp; int kind; double val; };    // kind 0 zero, 1 constant, 2 affine
struct NeuSpec { int patch; boxSide side; VField g; };
struct WeakSpec { int patch; boxSide side; bool clamped; VField g; };
struct PLoad { int patch; double xi[2]; double v[3]; bool parametric; };

struct Shell {
    int dim=3; bool bend=true; int cont=-1; int qextra=3;
    MP mp; gsMultiBasis<real_t> basis; gsBoundaryConditions<real_t> bc;
    MatSpec m; std::shared_ptr<gsMaterialMatrixBase<real_t> > mat; // base material (of a tension-field material)
    VField force; bool parForce=false;
    std::vector<WeakSpec> weak; bool wC0=false,wC1=false; int im0=-1,im1=-1; // weakly coupled interfaces (bits)
    gsBoxTopology::ifContainer ifcs(bool on,int mask) const { gsBoxTopology::ifContainer r; int i=0; for(auto&f:mp.topology().interfaces()) if(on&&((mask>>(i++))&1)) r.push_back(f); return r; }
     double aD=1e3,aR=1e3,aI=1e3;
    std::vector<BCspec> bcs; std::vector<NeuSpec> neu; std::vector<PLoad> pl; Field press; bool hasPress=false; VField found; bool hasFound=false;
    std::vector<std::shared_ptr<gsFunctionSet<real_t> > > keep;
    int np() const { return mp.nPatches(); }
    bool physPL() const { for(auto&q:pl) if(!q.parametric) return true; return false; } // located by the core up to about 1e-6

    AsmP make(gsMaterialMatrixBase<real_t>*mm,bool byContainer=false) const
    {
        AsmP a;
        if(byContainer)
        {
            gsMaterialMatrixContainer<real_t> c(np()); for(int p=0;p<np();p++) c.set(p,mm);
            if(dim==2) a.reset(new gsThinShellAssembler<2,real_t,false>(mp,basis,bc,*force.fn,c));
            else if(bend) a.reset(new gsThinShellAssembler<3,real_t,true>(mp,basis,bc,*force.fn,c));
            else a.reset(new gsThinShellAssembler<3,real_t,false>(mp,basis,bc,*force.fn,c));
        }
        else
        {
            if(dim==2) a.reset(new gsThinShellAssembler<2,real_t,false>(mp,basis,bc,*force.fn,mm));
            else if(bend) a.reset(new gsThinShellAssembler<3,real_t,true>(mp,basis,bc,*force.fn,mm));
            else a.reset(new gsThinShellAssembler<3,real_t,false>(mp,basis,bc,*force.fn,mm));
        }
        setup(*a); return a;
    }
    void setup(Asm&a) const
    {
        a.options().setInt("ExprAssembler.quB",1+qextra);
        if(cont!=-1){ gsOptionList o=a.options(); o.setInt("Continuity",cont); a.setOptions(o); }
        if(aD!=1e3) a.options().setReal("WeakDirichlet",aD);
        if(aR!=1e3) a.options().setReal("WeakClamped",aR);
        if(aI!=1e3) a.options().setReal("IfcPenalty",aI);
        if(wC0) a.addWeakC0(ifcs(true,im0));
        if(wC1) a.addWeakC1(ifcs(true,im1));
        if(pl.size()) a.setPointLoads(pointLoads());
        if(hasPress) a.setPressure(static_cast<gsFunction<real_t>&>(*press.fn));
        if(hasFound) a.setFoundation(*found.f());
    }
    gsPointLoads<real_t> pointLoads() const
    {
        gsPointLoads<real_t> r;
        for(auto&q:pl){ gsVector<real_t> v(dim); for(int i=0;i<dim;i++) v[i]=q.v[i]; gsVector<real_t> x(2); x<<q.xi[0],q.xi[1];
            if(!q.parametric){ Mat y; mp.patch(q.patch).eval_into(x,y); gsVector<real_t> yy=y.col(0); r.addLoad(yy,v,q.patch,false); } else r.addLoad(x,v,q.patch,true); }
        return r;
    }
    void applyBCs()
    {
        bc.clear();
        for(auto&b:bcs)
        {
            gsFunctionSet<real_t>*f=0; if(b.kind){ auto q=std::shared_ptr<gsFunctionSet<real_t> >(b.kind==1? (gsFunctionSet<real_t>*)new gsConstantFunction<real_t>(b.val,dim) : (gsFunctionSet<real_t>*)new gsFunctionExpr<real_t>(num(b.val)+"+("+num(0.5*b.val)+")*x-("+num(0.3*b.val)+")*y",dim)); keep.push_back(q); f=q.get(); }
            bc.addCondition(b.patch,b.side,(condition_type::type)b.type,f,0,false,b.comp);
        }
        for(auto&n:neu) bc.addCondition(n.patch,n.side,condition_type::neumann,n.g.f());
        for(auto&n:weak) bc.addCondition(n.patch,n.side,n.clamped?condition_type::weak_clamped:condition_type::weak_dirichlet,n.clamped?0:n.g.f());
        bc.setGeoMap(mp);
    }
};
// values of a DoF vector -> coefficients per patch (eliminated DoFs: zero)
inline MP fieldOf(const Shell&S,const gsDofMapper&map,const Vec&v)
{
    MP r; for(int p=0;p<S.np();p++){ Mat c=Mat::Zero(S.basis.basis(p).size(),S.dim); for(int i=0;i<S.dim;i++)for(int k=0;k<c.rows();k++) if(map.is_free(k,p,i)) c(k,i)=v(map.index(k,p,i),0); r.addPatch(S.basis.basis(p).makeGeometry(give(c))); }
    return r;
}
inline MP add(const MP&a,const MP&b,double f){ MP r=a; for(size_t p=0;p<r.nPatches();p++) r.patch(p).coefs()+=f*b.patch(p).coefs(); return r; }

struct MatKind { int mat; bool comp; int impl; };
struct ShellOpt { bool hyper=true, bcs=true, dirVals=true, loads=true, pointLoads=true, neumann=true, pressure=true, foundation=true, multi=true, nurbs=true, clamped=true; int dim=0; int bend=-1; double tmin=5e-3,tmax=0.1; bool flat=false; int maxKnots=2; double perturb=0.06; int pPL=30,pMulti=40,maxPatches=4,pTHB=12; };

inline gsGeometry<real_t>::uPtr turn(const gsGeometry<real_t>&g,int q)
{   // rotates the parametrisation by q quarter turns (orientation is kept)
    gsTensorBSpline<2,real_t> t(dynamic_cast<const gsTensorBSpline<2,real_t>&>(g));
    for(int i=0;i<q;i++){ t.swapDirections(0,1); t.reverse(0); }
    return gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(t));
}
inline bool hier(const gsBasis<real_t>&b){ return dynamic_cast<const gsHTensorBasis<2,real_t>*>(&b)!=0; }
// the same surface in a locally refined truncated hierarchical basis
inline gsGeometry<real_t>::uPtr hierarchical(Ctx&ctx,const gsGeometry<real_t>&g)
{
    Source&s=ctx.s; gsTHBSpline<2,real_t>*h=new gsTHBSpline<2,real_t>(dynamic_cast<const gsTensorBSpline<2,real_t>&>(g)); gsGeometry<real_t>::uPtr r(h); ctx.label("hierarchical"); ctx.desc<<" THB";
    int n=s.range(1,2); for(int i=0;i<n;i++)
    {   // a box of cells of level i+1
        std::vector<index_t> b(1,i+1); int N[2],lo[2],hi[2]; for(int k=0;k<2;k++){ N[k]=h->basis().tensorLevel(i+1).knots(k).uSize()-1; lo[k]=2*s.draw((N[k]+1)/2); hi[k]=lo[k]+2*(1+s.draw(2)); if(hi[k]>N[k]) hi[k]=N[k]; }
        for(int k=0;k<2;k++) b.push_back(lo[k]); for(int k=0;k<2;k++) b.push_back(hi[k]); ctx.desc<<" ["<<lo[0]<<","<<hi[0]<<"]x["<<lo[1]<<","<<hi[1]<<"]/"<<N[0]<<","<<N[1]; h->refineElements(b);
    }
    ctx.require((int)h->basis().getBases().size()>(int)h->basis().maxLevel());   // the core wants a function on every level
    return r;
}
inline Shell shell(Ctx&ctx,const ShellOpt&o)
{
    Source&s=ctx.s; Shell S; S.dim=o.dim?o.dim:(s.flag(25)?2:3); S.bend= S.dim==2?false: (o.bend>=0? o.bend!=0 : !s.flag(25));
    GeoOpt go; go.minDeg=2; go.maxDeg=3; go.maxKnots=o.maxKnots; go.nurbs=o.nurbs; go.flat=o.flat; go.perturb=o.perturb;
    int np=o.multi&&s.flag(o.pMulti)?2:1; if(np==2&&o.maxPatches>2&&s.flag(25)) np=s.flag(50)?3:4; if(np>1) go.nurbs=false; if(np>2) go.maxKnots=0;
    gsGeometry<real_t>::uPtr g=patch(s,S.dim,go);
    if(np==1) S.mp.addPatch(o.pTHB&&dynamic_cast<gsTensorBSpline<2,real_t>*>(g.get())&&s.flag(o.pTHB)?hierarchical(ctx,*g):give(g));
    else
    {   // two or three in a row, or two by two
        typedef gsTensorBSpline<2,real_t> TB; int dir=s.range(0,1); double xi=s.real(0.3,0.7,0.5); std::vector<TB> parts; auto split=[&](const TB&g,int dir,double xi){ TB c(g),l,r; c.splitAt(dir,xi,l,r); parts.push_back(l); parts.push_back(r); };
        split(dynamic_cast<TB&>(*g),dir,xi); if(np==3){ TB r=parts[1]; parts.pop_back(); split(r,dir,xi+(1-xi)*s.real(0.3,0.7,0.5)); } if(np==4){ TB l=parts[0],r=parts[1]; parts.clear(); double eta=s.real(0.3,0.7,0.5); split(l,1-dir,eta); split(r,1-dir,eta); }
        ctx.desc<<" split="<<dir<<" turn="; for(size_t i=0;i<parts.size();i++){ int q=i?s.range(0,3):0; S.mp.addPatch(turn(parts[i],q)); ctx.desc<<q; }
        S.mp.computeTopology(); S.mp.addAutoBoundaries();
        ctx.require((int)S.mp.nInterfaces()==(np==4?4:np-1)); if(np>2) ctx.label(np==3?"three patches":"four patches");
        S.cont=s.flag(60)?0:-1;
    }
    S.basis=gsMultiBasis<real_t>(S.mp);
    // material
    Combo c{0,false,1}; if(o.hyper&&s.flag(60)) c=combos()[s.draw(combos().size())];
    S.m=matSpec(s,S.dim,c.mat,c.comp,c.impl,o.tmax);
    S.mat=std::shared_ptr<gsMaterialMatrixBase<real_t> >(S.m.make(S.mp).release());
    double K=S.m.E.c0*S.m.t.c0; // scale of membrane forces
    // loads
    S.parForce= S.dim==3&&s.flag(30); S.force=vfield(s,S.dim,S.parForce?2:S.dim,o.loads?0.1*K:0.0,S.dim==3);
    if(o.neumann&&s.flag(40)){ int n=s.range(1,2); for(int i=0;i<n;i++){ NeuSpec q; q.patch=s.draw(np); q.side=boxSide(1+s.draw(4)); q.g=vfield(s,S.dim,S.dim,0.1*K); bool bad=false; for(auto&e:S.neu) bad|=e.patch==q.patch&&e.side==q.side; if(np>1&&!S.mp.isBoundary(patchSide(q.patch,q.side))) bad=true; if(!bad) S.neu.push_back(q); } }
    if(o.pointLoads&&s.flag(o.pPL)){ int n=s.range(1,2); for(int i=0;i<n;i++){ PLoad q; q.patch=s.draw(np); Mat sup=S.mp.patch(q.patch).support(); for(int j=0;j<2;j++) q.xi[j]=sup(j,0)+(sup(j,1)-sup(j,0))*s.real(0,1,0.5); for(int j=0;j<3;j++) q.v[j]=0.1*K*s.sym(1); q.parametric=!s.flag(30); if(!q.parametric) for(int j=0;j<2;j++) q.xi[j]=sup(j,0)+(sup(j,1)-sup(j,0))*std::min(0.9,std::max(0.1,(q.xi[j]-sup(j,0))/(sup(j,1)-sup(j,0)))); S.pl.push_back(q); } }
    if(o.pressure&&S.dim==3&&s.flag(40)){ S.hasPress=true; S.press=field(s,0.1*K*s.sym(1),3,0.2); }
    if(o.foundation&&S.dim==3&&s.flag(40)){ S.hasFound=true; S.found=vfield(s,3,3,K,true,true); }
    if(o.bcs)
    {
        int n=s.range(0,3);
        for(int i=0;i<n;i++)
        {
            BCspec b; b.patch=s.draw(np); b.side=boxSide(1+s.draw(4)); b.comp=s.range(-1,S.dim-1); b.kind= o.dirVals&&b.comp>=0? s.range(0,2):0; b.val=0.1*s.sym(1); b.type=condition_type::dirichlet;
            if(o.clamped&&s.flag(20)&&!hier(S.basis.basis(0))){ b.type= s.flag(30)&&b.comp>=0? condition_type::collapsed:condition_type::clamped; b.kind=0; }
            if(np>1&&!S.mp.isBoundary(patchSide(b.patch,b.side))) continue;
            bool bad=false; for(auto&e:S.bcs) bad|= e.patch==b.patch&&e.side==b.side&&(e.comp==b.comp||e.comp==-1||b.comp==-1); if(bad) continue;
            S.bcs.push_back(b);
        }
    }
    S.applyBCs();
    ctx.desc<<" d="<<S.dim<<(S.bend?"b":"m")<<" np="<<np<<" cont="<<S.cont<<" deg=("<<S.basis.basis(0).degree(0)<<","<<S.basis.basis(0).degree(1)<<") el="<<S.basis.basis(0).numElements()<<" "<<S.m.str()<<" bcs=";
    for(auto&b:S.bcs) ctx.desc<<b.patch<<":"<<b.side<<"t"<<b.type<<"c"<<b.comp<<"k"<<b.kind<<" ";
    ctx.desc<<" neu="<<S.neu.size()<<" pl="<<S.pl.size()<<" p="<<S.hasPress<<" f="<<S.hasFound<<" parF="<<S.parForce;
    return S;
}

// ---- quadrature points of a patch
struct QP { Mat u; std::vector<R> w; };
inline std::vector<double> breaks(const gsBasis<real_t>&b,int dir)
{
    const gsTensorBSplineBasis<2,real_t>*t=dynamic_cast<const gsTensorBSplineBasis<2,real_t>*>(&b);
    if(!t) t=dynamic_cast<const gsTensorBSplineBasis<2,real_t>*>(&b.source());
    if(!t) throw std::runtime_error("basis");
    const gsKnotVector<real_t>&kv=t->knots(dir); std::vector<double> r; for(auto it=kv.domainBegin();it<=kv.domainEnd();++it) if(r.empty()||*it>r.back()) r.push_back(*it); return r;
}
inline QP quad(const gsBasis<real_t>&b,int extra)
{
    if(hier(b))
    {
        QP q; std::vector<R> x[2],w[2]; for(int i=0;i<2;i++) ref::gauss(b.degree(i)+extra,x[i],w[i]); std::vector<double> U[2];
        auto dom=b.domain(); for(auto it=dom->beginAll(),en=dom->endAll();it<en;++it)
        {
            R lo[2],hi[2]; for(int i=0;i<2;i++){ lo[i]=it.lowerCorner()[i]; hi[i]=it.upperCorner()[i]; }
            for(size_t i=0;i<x[0].size();i++)for(size_t j=0;j<x[1].size();j++){ U[0].push_back((double)(lo[0]+(hi[0]-lo[0])*(x[0][i]+1)/2)); U[1].push_back((double)(lo[1]+(hi[1]-lo[1])*(x[1][j]+1)/2)); q.w.push_back(w[0][i]*w[1][j]*(hi[0]-lo[0])*(hi[1]-lo[1])/4); }
        }
        q.u.resize(2,U[0].size()); for(size_t k=0;k<U[0].size();k++){ q.u(0,k)=U[0][k]; q.u(1,k)=U[1][k]; } return q;
    }
    QP q; std::vector<R> x[2],w[2]; std::vector<double> br[2]; for(int i=0;i<2;i++){ ref::gauss(b.degree(i)+extra,x[i],w[i]); br[i]=breaks(b,i); }
    size_t ne=(br[0].size()-1)*(br[1].size()-1); q.u.resize(2,ne*x[0].size()*x[1].size()); int k=0;
    for(size_t e=0;e+1<br[0].size();e++) for(size_t f=0;f+1<br[1].size();f++)
    {
        R lo[2]={br[0][e],br[1][f]},hi[2]={br[0][e+1],br[1][f+1]};
        for(size_t i=0;i<x[0].size();i++)for(size_t j=0;j<x[1].size();j++){ q.u(0,k)=(double)(lo[0]+(hi[0]-lo[0])*(x[0][i]+1)/2); q.u(1,k)=(double)(lo[1]+(hi[1]-lo[1])*(x[1][j]+1)/2); q.w.push_back(w[0][i]*w[1][j]*(hi[0]-lo[0])*(hi[1]-lo[1])/4); k++; }
    }
    return q;
}
// elements in the order in which the module visits them
struct Box { double lo[2],hi[2]; bool has(double x,double y) const { return x>=lo[0]&&x<=hi[0]&&y>=lo[1]&&y<=hi[1]; } };
inline std::vector<Box> boxes(const gsBasis<real_t>&b)
{
    std::vector<Box> r; Box x;
    if(hier(b)){ auto dom=b.domain(); for(auto it=dom->beginAll(),en=dom->endAll();it<en;++it){ for(int i=0;i<2;i++){ x.lo[i]=it.lowerCorner()[i]; x.hi[i]=it.upperCorner()[i]; } r.push_back(x); } return r; }
    auto b0=breaks(b,0),b1=breaks(b,1); for(size_t j=0;j+1<b1.size();j++) for(size_t i=0;i+1<b0.size();i++){ x.lo[0]=b0[i]; x.hi[0]=b0[i+1]; x.lo[1]=b1[j]; x.hi[1]=b1[j+1]; r.push_back(x); } return r;
}
inline size_t boxOf(const std::vector<Box>&B,double x,double y){ for(size_t i=0;i<B.size();i++) if(B[i].has(x,y)) return i; throw std::runtime_error("box"); }
// quadrature points on a side
inline QP quadSide(const gsBasis<real_t>&b,boxSide side,int extra)
{
    QP q; int dir=side.direction(), t=1-dir; Mat sup=b.support(); double fix=side.parameter()?sup(dir,1):sup(dir,0);
    std::vector<R> x,w; ref::gauss(b.degree(t)+extra,x,w); std::vector<double> br,U; if(!hier(b)) br=breaks(b,t); else { std::set<double> B; auto dom=b.domain(); for(auto it=dom->beginBdr(side),en=dom->endBdr(side);it<en;++it){ B.insert(it.lowerCorner()[t]); B.insert(it.upperCorner()[t]); } br.assign(B.begin(),B.end()); }
    for(size_t e=0;e+1<br.size();e++){ R lo=br[e],hi=br[e+1]; for(size_t i=0;i<x.size();i++){ U.push_back((double)(lo+(hi-lo)*(x[i]+1)/2)); q.w.push_back(w[i]*(hi-lo)/2); } }
    q.u.resize(2,U.size()); for(size_t i=0;i<U.size();i++){ q.u(dir,i)=fix; q.u(t,i)=U[i]; }
    return q;
}
// points of the second side of an interface matching points on the first one
inline Mat ifcPoints(const MP&mp,const boundaryInterface&bi,const Mat&u)
{
    int d1=bi.first().direction(),t1=1-d1,d2=bi.second().direction(),t2=1-d2; Mat s1=mp.patch(bi.first().patch).support(),s2=mp.patch(bi.second().patch).support(),r=u;
    bool same=bi.dirOrientation(bi.first(),t1); for(int k=0;k<u.cols();k++){ double f=(u(t1,k)-s1(t1,0))/(s1(t1,1)-s1(t1,0)); if(!same) f=1-f; r(t2,k)=s2(t2,0)+f*(s2(t2,1)-s2(t2,0)); r(d2,k)=bi.second().parameter()?s2(d2,1):s2(d2,0); }
    return r;
}
// surface data with second derivatives, for many points
struct Pt { V3 x,a[2],dd[3]; };              // dd: 11,22,12
inline std::vector<Pt> pts(const gsGeometry<real_t>&g,const Mat&u,int dim)
{
    Mat x,d,d2; g.eval_into(u,x); g.deriv_into(u,d); g.deriv2_into(u,d2); std::vector<Pt> r(u.cols());
    for(int k=0;k<u.cols();k++) for(int i=0;i<3;i++){ bool in=i<dim; r[k].x[i]=in?x(i,k):0; for(int j=0;j<2;j++) r[k].a[j][i]=in?d(2*i+j,k):0; for(int j=0;j<3;j++) r[k].dd[j][i]=in?d2(3*i+j,k):0; }
    return r;
}
inline Pt comb(const Pt&a,R f,const Pt&b){ Pt r; r.x=a.x+f*b.x; for(int j=0;j<2;j++) r.a[j]=a.a[j]+f*b.a[j]; for(int j=0;j<3;j++) r.dd[j]=a.dd[j]+f*b.dd[j]; return r; }
inline V3 normal(const Pt&p,R*J=0){ V3 c=ref::cross(p.a[0],p.a[1]); R j=std::sqrt(ref::dot(c,c)); if(J)*J=j; return (1/j)*c; }
inline ref::Surf asSurf(const Pt&p)
{
    ref::Surf s; s.x=p.x; s.a1=p.a[0]; s.a2=p.a[1]; s.n=normal(p,&s.J); s.A=M2{{{ref::dot(s.a1,s.a1),ref::dot(s.a1,s.a2)},{ref::dot(s.a1,s.a2),ref::dot(s.a2,s.a2)}}};
    R b11=ref::dot(p.dd[0],s.n),b22=ref::dot(p.dd[1],s.n),b12=ref::dot(p.dd[2],s.n); s.B=M2{{{b11,b12},{b12,b22}}}; M2 Ai=ref::inv(s.A);
    s.N3=ref::mul(ref::mul(s.B,Ai),s.B); return s;
}
typedef std::array<R,3> A3;
// membrane strain and change of curvature (Voigt, doubled shear)
inline void strains(const Pt&o,const Pt&d,A3&e,A3&k)
{
    auto g=[](const Pt&p,int i,int j){ return ref::dot(p.a[i],p.a[j]); };
    e={{(g(d,0,0)-g(o,0,0))/2,(g(d,1,1)-g(o,1,1))/2,g(d,0,1)-g(o,0,1)}};
    V3 no=normal(o),nd=normal(d); for(int c=0;c<3;c++) k[c]=(c==2?2:1)*(ref::dot(o.dd[c],no)-ref::dot(d.dd[c],nd));
}
// first variation along v
inline void dstrains(const Pt&d,const Pt&v,A3&e,A3&k)
{
    e={{ref::dot(d.a[0],v.a[0]),ref::dot(d.a[1],v.a[1]),ref::dot(d.a[0],v.a[1])+ref::dot(d.a[1],v.a[0])}};
    R J; V3 n=normal(d,&J); V3 w=(1/J)*(ref::cross(v.a[0],d.a[1])+ref::cross(d.a[0],v.a[1])); V3 dn=w-ref::dot(w,n)*n;
    for(int c=0;c<3;c++) k[c]=-(c==2?2:1)*(ref::dot(v.dd[c],n)+ref::dot(d.dd[c],dn));
}
// resultants of the material specification (independent law)
inline void resultants(const MatSpec&m,const Pt&o,const Pt&d,A3&N,A3&M)
{
    R t=m.t(o.x);
    if(m.mat==0)
    {
        A3 e,k; strains(o,d,e,k); ref::Surf so=asSurf(o); R C[3][3]; ref::linearC(m.E(o.x),m.nu(o.x),ref::inv(so.A),C);
        for(int a=0;a<3;a++){ N[a]=M[a]=0; for(int b=0;b<3;b++){ N[a]+=t*C[a][b]*e[b]; M[a]+=t*t*t/12*C[a][b]*k[b]; } }
        return;
    }
    ref::Surf so=asSurf(o),sd=asSurf(d); std::vector<R> x,w; ref::gauss(4,x,w); N={{0,0,0}}; M=N; ref::Law law=m.law(o.x);
    for(size_t i=0;i<x.size();i++){ R z=t/2*x[i]; A3 s=ref::voigt(ref::stress(law,ref::metric(so,z),ref::metric(sd,z))); for(int a=0;a<3;a++){ N[a]+=w[i]*t/2*s[a]; M[a]+=w[i]*t/2*z*s[a]; } }
}
struct Work { R in=0,force=0,neu=0,pl=0,press=0,found=0,scale=0; R ext() const { return force+neu+pl+press+found; } R total() const { return ext()-in; } };
// is the configuration within the domain where laws and kinematics are well-posed
inline bool okState(const Shell&S,const MP&def,int extra,double lmin,double lmax)
{
    for(int p=0;p<S.np();p++)
    {
        QP q=quad(S.basis.basis(p),extra); auto o=pts(S.mp.patch(p),q.u,S.dim),d=pts(def.patch(p),q.u,S.dim);
        Scene sc; sc.dim=S.dim; sc.m=S.m; sc.u=q.u; sc.z=Mat::Zero(1,1); for(size_t k=0;k<o.size();k++){ sc.so.push_back(asSurf(o[k])); sc.sd.push_back(asSurf(d[k])); }
        if(!admissible(sc,lmin,lmax)) return false;
    }
    return true;
}
inline R sgnAbs(R v){ return std::abs(v); }
template<class F> Work virtualWork(const Shell&S,const MP&def,const MP&v,F res,int extra=5)
{
    Work W;
    for(int p=0;p<S.np();p++)
    {
        QP q=quad(S.basis.basis(p),extra); auto o=pts(S.mp.patch(p),q.u,S.dim),d=pts(def.patch(p),q.u,S.dim),vv=pts(v.patch(p),q.u,S.dim);
        for(size_t k=0;k<o.size();k++)
        {
            R J; normal(o[k],&J); R w=q.w[k]*J; A3 N,M,e,kk; dstrains(d[k],vv[k],e,kk); res(p,k,q.u,o[k],d[k],N,M);
            for(int a=0;a<3;a++){ R i1=w*N[a]*e[a],i2=S.bend?w*M[a]*kk[a]:0; W.in+=i1+i2; W.scale+=std::abs(i1)+std::abs(i2); R Aa=a<2?ref::dot(o[k].a[a],o[k].a[a]):std::sqrt(ref::dot(o[k].a[0],o[k].a[0])*ref::dot(o[k].a[1],o[k].a[1])); W.scale+=1e-4L*w*S.m.E.c0*S.m.t.c0/Aa*(std::abs(e[a])+(S.bend?S.m.t.c0*std::abs(kk[a]):0)); }
            double xx[3]; for(int i=0;i<3;i++) xx[i]= S.parForce? (i<2?q.u(i,k):0) : (double)o[k].x[i];
            R f=w*ref::dot(S.force(xx),vv[k].x); W.force+=f; W.scale+=std::abs(f);
            if(S.hasPress){ R f=w*(R)S.press(o[k].x)*ref::dot(normal(d[k]),vv[k].x); W.press+=f; W.scale+=std::abs(f); }
            if(S.hasFound){ double x3[3]={(double)o[k].x[0],(double)o[k].x[1],(double)o[k].x[2]}; V3 kf=S.found(x3); R f=0; for(int i=0;i<3;i++) f-=w*kf[i]*(d[k].x[i]-o[k].x[i])*vv[k].x[i]; W.found+=f; W.scale+=std::abs(f); }
        }
    }
    for(auto&n:S.neu)
    {
        QP q=quadSide(S.basis.basis(n.patch),n.side,extra); auto o=pts(S.mp.patch(n.patch),q.u,S.dim),vv=pts(v.patch(n.patch),q.u,S.dim); int t=1-n.side.direction();
        for(size_t k=0;k<o.size();k++){ double x3[3]={(double)o[k].x[0],(double)o[k].x[1],(double)o[k].x[2]}; R f=q.w[k]*std::sqrt(ref::dot(o[k].a[t],o[k].a[t]))*ref::dot(n.g(x3),vv[k].x); W.neu+=f; W.scale+=std::abs(f); }
    }
    for(auto&l:S.pl){ Mat u(2,1); u<<l.xi[0],l.xi[1]; auto vv=pts(v.patch(l.patch),u,S.dim); R f=0; for(int i=0;i<S.dim;i++) f+=l.v[i]*vv[0].x[i]; W.pl+=f; W.scale+=std::abs(f); }
    return W;
}
inline Work virtualWork(const Shell&S,const MP&def,const MP&v,int extra=5){ return virtualWork(S,def,v,[&](int,int,const Mat&,const Pt&o,const Pt&d,A3&N,A3&M){ resultants(S.m,o,d,N,M); },extra); }
inline Vec randVec(Source&s,int n,double a){ Vec v(n,1); for(int i=0;i<n;i++) v(i,0)=a*s.sym(1); return v; }
// few choices: a vector generated from one seed and a smooth profile, so that cases shrink well
inline Vec rough(Source&s,int n,double a){ uint64_t st=s.draw(1u<<20)+12345; Vec v(n,1); for(int i=0;i<n;i++){ st=st*6364136223846793005ull+1442695040888963407ull; v(i,0)=a*(double((st>>33)&0xffffff)/double(0x800000)-1); } return v; }
inline void good(Ctx&ctx,ThinShellAssemblerStatus st,const char*w){ ctx.check(st==ThinShellAssemblerStatus::Success,std::string("status of ")+w); }
// deformed geometry: random, moderate
inline MP deformed(Ctx&ctx,const Shell&S,double stretch=0.15,double pert=0.03)
{
    MP d=S.mp; DefOpt o; o.stretch=stretch; o.pert=pert; o.allowZero=true;
    if(S.np()==1){ deform(ctx.s,d.patch(0),S.dim,o,ctx.desc); return d; }
    // the same linear map for both patches, own perturbations
    Source&s=ctx.s; double F[9]={0}; for(int i=0;i<S.dim;i++)for(int j=0;j<S.dim;j++) F[i*S.dim+j]=(i==j)+s.sym(stretch)*(i==j?1:0.6);
    for(int p=0;p<S.np();p++){ applyT(d.patch(p).coefs(),F,S.dim); Mat&c=d.patch(p).coefs(); Vec r=rough(s,c.size(),pert); for(int i=0;i<c.size();i++) c.data()[i]+=r(i,0); }
    return d;
}

// material tangents of the resultants with respect to (membrane strain, change of curvature), from the independent law
struct Tan { R A[3][3],B[3][3],D[3][3]; };
inline Tan tangents(const MatSpec&m,const Pt&o,const Pt&d,bool bend)
{
    Tan T; R t=m.t(o.x); for(int a=0;a<3;a++)for(int b=0;b<3;b++) T.A[a][b]=T.B[a][b]=T.D[a][b]=0; ref::Surf so=asSurf(o),sd=asSurf(d);
    if(m.mat==0){ R C[3][3]; ref::linearC(m.E(o.x),m.nu(o.x),ref::inv(so.A),C); for(int a=0;a<3;a++)for(int b=0;b<3;b++){ T.A[a][b]=t*C[a][b]; T.D[a][b]=t*t*t/12*C[a][b]; } return T; }
    std::vector<R> x,w; ref::gauss(4,x,w); ref::Law law=m.law(o.x);
    for(size_t i=0;i<x.size();i++){ R z=t/2*x[i]; M2 Go=ref::metric(so,z); R C[3][3]; ref::tangentFD([&](const M2&g){ return ref::stress(law,Go,g); },ref::metric(sd,z),C);
        for(int a=0;a<3;a++)for(int b=0;b<3;b++){ R c=w[i]*t/2*C[a][b]; T.A[a][b]+=c; T.B[a][b]+=z*c; T.D[a][b]+=z*z*c; } }
    return T;
}
struct Form { R val=0,scale=0; void add(R v){ val+=v; scale+=std::abs(v); } };
// second variation of the strain energy at a point
struct Stiff { Tan T; A3 N,M; Stiff(const MatSpec&m,bool bend,const Pt&o,const Pt&d,bool geometric){ T=tangents(m,o,d,bend); if(geometric) resultants(m,o,d,N,M); } };
inline void tangentPt(const Stiff&s,bool bend,const Pt&d,const Pt&v,const Pt&w,R W,bool geometric,Form&F)
{
    A3 ev,kv,ew,kw; dstrains(d,v,ev,kv); dstrains(d,w,ew,kw); const Tan&T=s.T; const A3&N=s.N,&M=s.M;
    if(!bend) kv=kw=A3{{0,0,0}};
    for(int a=0;a<3;a++)for(int b=0;b<3;b++){ F.add(W*T.A[a][b]*ev[a]*ew[b]); if(bend){ F.add(W*T.B[a][b]*(ev[a]*kw[b]+kv[a]*ew[b])); F.add(W*T.D[a][b]*kv[a]*kw[b]); } }
    if(!geometric) return;
    auto ab=[&](int i,int j){ return ref::dot(v.a[i],w.a[j]); };
    F.add(W*N[0]*ab(0,0)); F.add(W*N[1]*ab(1,1)); F.add(W*N[2]*(ab(0,1)+ab(1,0)));
    if(bend)
    {
        R nw=0; for(int i=0;i<2;i++) nw=std::max(nw,std::sqrt(ref::dot(w.a[i],w.a[i])/ref::dot(d.a[i],d.a[i]))); R h=nw>0?1e-3L/nw:1;
        A3 e_,k1,k2,k3,k4; dstrains(comb(d,h,w),v,e_,k1); dstrains(comb(d,-h,w),v,e_,k2); dstrains(comb(d,2*h,w),v,e_,k3); dstrains(comb(d,-2*h,w),v,e_,k4);
        for(int a=0;a<3;a++) F.add(W*M[a]*(8*(k1[a]-k2[a])-(k3[a]-k4[a]))/(12*h));
    }
}
// second variation: minus the derivative of the virtual work of virtualWork() along w
// (prev: the resultants are those of a previous state, linearised along an update)
typedef std::function<void(int,const Mat&,std::vector<Pt>&,std::vector<Pt>&)> PrevFn;
inline Form tangentForm(const Shell&S,const MP&def,const MP&v,const MP&w,int extra,bool geometric,bool press,const PrevFn&prev=PrevFn())
{
    Form F; std::vector<Pt> pp,uu;
    for(int p=0;p<S.np();p++)
    {
        QP q=quad(S.basis.basis(p),extra); auto o=pts(S.mp.patch(p),q.u,S.dim),d=pts(def.patch(p),q.u,S.dim),vv=pts(v.patch(p),q.u,S.dim),ww=pts(w.patch(p),q.u,S.dim);
        for(size_t k=0;k<o.size();k++)
        {
            R J; normal(o[k],&J); R W=q.w[k]*J; Stiff st(S.m,S.bend,o[k],d[k],geometric);
            if(prev)
            {
                if(!k) prev(p,q.u,pp,uu); Stiff s0(S.m,S.bend,o[k],pp[k],true); A3 e,c; dstrains(pp[k],uu[k],e,c); st.N=s0.N; st.M=s0.M;
                for(int a=0;a<3;a++)for(int b=0;b<3;b++){ st.N[a]+=s0.T.A[a][b]*e[b]+s0.T.B[a][b]*c[b]; st.M[a]+=s0.T.B[a][b]*e[b]+s0.T.D[a][b]*c[b]; }
            }
            tangentPt(st,S.bend,d[k],vv[k],ww[k],W,geometric,F);
            if(S.hasPress&&press){ R Jd; V3 n=normal(d[k],&Jd); V3 y=(1/Jd)*(ref::cross(ww[k].a[0],d[k].a[1])+ref::cross(d[k].a[0],ww[k].a[1])); V3 dn=y-ref::dot(y,n)*n; F.add(-W*(R)S.press(o[k].x)*ref::dot(dn,vv[k].x)); }
            if(S.hasFound){ double x3[3]={(double)o[k].x[0],(double)o[k].x[1],(double)o[k].x[2]}; V3 kf=S.found(x3); for(int i=0;i<3;i++) F.add(W*kf[i]*ww[k].x[i]*vv[k].x[i]); }
        }
    }
    return F;
}
inline Form tangentForm(const Shell&S,const MP&def,const MP&v,const MP&w,int extra,bool geometric=true){ return tangentForm(S,def,v,w,extra,geometric,true); }
inline Form tangentForm(const Shell&S,const MP&def,const MP&v,const MP&w,int extra,const PrevFn&prev){ return tangentForm(S,def,v,w,extra,true,true,prev); }
// ---- penalty energies of weakly imposed conditions (linear law: the penalty does not depend on the deformation)
inline V3 conormal(const Pt&p,boxSide s)
{   // outward unit vector in the surface, perpendicular to the side
    int dir=s.direction(); V3 t=p.a[1-dir],a=p.a[dir]; V3 c=a-(ref::dot(a,t)/ref::dot(t,t))*t; R n=std::sqrt(ref::dot(c,c)); return ((s.parameter()?1:-1)/n)*c;
}
// stiffness that scales a penalty: the largest entry of the stiffness matrix in the local orthonormal frame, as the code forms it
// (for orthogonal parametrisations that is Et/(1-nu^2); how skew ones are scaled is pinned, not claimed to be the best choice)
inline R stiff(const Shell&S,const Pt&o,bool bending)
{
    R t=S.m.t(o.x); ref::Surf so=asSurf(o); M2 Ai=ref::inv(so.A); R C[3][3]; ref::linearC(S.m.E(o.x),S.m.nu(o.x),Ai,C);
    V3 a[2]={o.a[0],o.a[1]},c[2]; for(int i=0;i<2;i++) c[i]=Ai(i,0)*a[0]+Ai(i,1)*a[1]; V3 e1=(1/std::sqrt(ref::dot(a[0],a[0])))*a[0],e2=a[1]-ref::dot(a[1],e1)*e1; e2=(1/std::sqrt(ref::dot(e2,e2)))*e2;
    auto frame=[&](const V3*g,R T[3][3]){ R p[2][2]; for(int i=0;i<2;i++){ p[0][i]=ref::dot(e1,g[i]); p[1][i]=ref::dot(e2,g[i]); } static const int I[3][2]={{0,0},{1,1},{0,1}};
        for(int r=0;r<3;r++){ int x=I[r][0],y=I[r][1]; T[r][0]=p[x][0]*p[y][0]; T[r][1]=p[x][1]*p[y][1]; T[r][2]= r<2? 2*p[x][0]*p[y][1] : p[x][0]*p[y][1]+p[x][1]*p[y][0]; } };
    gsMatrix<R> Tc(3,3),Tn(3,3),A(3,3); R T[3][3]; frame(a,T); for(int i=0;i<9;i++) Tc(i/3,i%3)=T[i/3][i%3]; frame(c,T); for(int i=0;i<9;i++) Tn(i/3,i%3)=T[i/3][i%3]; for(int i=0;i<9;i++) A(i/3,i%3)=t*C[i/3][i%3];
    gsMatrix<R> Ti=Tn.inverse(); gsMatrix<R> Q=Ti*A*Tc; R m=Q(0,0); for(int i=1;i<9;i++) m=std::max(m,Q(i/3,i%3)); return bending? m*t*t/12 : m;
}
// length of the elements along a side, per quadrature point
inline std::vector<R> edgeLength(const QP&q,const std::vector<Pt>&o,int t,int n){ std::vector<R> r(o.size()); for(size_t e=0;e<o.size();e+=n){ R L=0; for(int i=0;i<n;i++) L+=q.w[e+i]*std::sqrt(ref::dot(o[e+i].a[t],o[e+i].a[t])); for(int i=0;i<n;i++) r[e+i]=L; } return r; }
// derivative of the penalty energy along v, and along v and w (second derivative)
inline void penalty(const Shell&S,const MP&def,const MP&v,const MP*w,int extra,Form&F)
{
    // energy r.r/2: r and its directional derivatives by central differences (r is smooth and of moderate size)
    auto diff=[&](R c,const std::function<V3(R,R)>&r)
    {
        const R h=1e-4L; static const R k[3]={45,-9,1}; V3 r0=r(0,0);
        auto d1=[&](R b){ V3 s{{0,0,0}}; for(int i=0;i<3;i++) s=s+(k[i]/(60*h))*(r((i+1)*h,b)-r(-(i+1)*h,b)); return s; }; V3 dv=d1(0); R n=std::sqrt(ref::dot(dv,dv));
        if(!w){ F.add(c*ref::dot(r0,dv)); F.scale+=1e-3L*c*n; return; }
        V3 dw{{0,0,0}},dd{{0,0,0}}; for(int i=0;i<3;i++){ dw=dw+(k[i]/(60*h))*(r(0,(i+1)*h)-r(0,-(i+1)*h)); if(ref::dot(r0,r0)>0) dd=dd+(k[i]/(60*h))*(d1((i+1)*h)-d1(-(i+1)*h)); }
        F.add(c*ref::dot(dv,dw)); F.add(c*ref::dot(r0,dd)); F.scale+=1e-3L*c*n*std::sqrt(ref::dot(dw,dw));
    };
    for(auto&n:S.weak)
    {
        int t=1-n.side.direction(),p=n.patch; QP q=quadSide(S.basis.basis(p),n.side,extra); auto o=pts(S.mp.patch(p),q.u,S.dim),d=pts(def.patch(p),q.u,S.dim),vv=pts(v.patch(p),q.u,S.dim),ww=w?pts(w->patch(p),q.u,S.dim):vv; auto L=edgeLength(q,o,t,S.basis.basis(p).degree(t)+extra);
        for(size_t k=0;k<o.size();k++)
        {
            R ds=q.w[k]*std::sqrt(ref::dot(o[k].a[t],o[k].a[t])),al=(n.clamped?S.aR:S.aD)*stiff(S,o[k],n.clamped)/L[k]; if(n.clamped&&S.dim==2) continue;
            double x3[3]={(double)o[k].x[0],(double)o[k].x[1],(double)o[k].x[2]}; V3 g{{0,0,0}}; if(!n.clamped) g=n.g(x3); V3 nu=S.dim==3?conormal(o[k],n.side):V3{{0,0,0}};
            diff(ds*al,[&](R a,R b){ Pt x=comb(d[k],a,vv[k]); if(w) x=comb(x,b,ww[k]); if(n.clamped) return V3{{ref::dot(normal(x),nu)-ref::dot(normal(o[k]),nu),0,0}}; return x.x-o[k].x-g; });
        }
    }
    int nr=0; for(auto bi:S.mp.topology().interfaces())
    {
        bool c0=S.wC0&&((S.im0>>nr)&1),c1=S.wC1&&((S.im1>>nr)&1); nr++; if(!c0&&!c1) continue; int P[2]={(int)bi.first().patch,(int)bi.second().patch}; boxSide sd[2]={bi.first().side(),bi.second().side()}; int t=1-sd[0].direction();
        QP q=quadSide(S.basis.basis(P[0]),sd[0],extra); Mat u[2]={q.u,ifcPoints(S.mp,bi,q.u)}; std::vector<Pt> o[2],d[2],vv[2],ww[2];
        for(int i=0;i<2;i++){ o[i]=pts(S.mp.patch(P[i]),u[i],S.dim); d[i]=pts(def.patch(P[i]),u[i],S.dim); vv[i]=pts(v.patch(P[i]),u[i],S.dim); if(w) ww[i]=pts(w->patch(P[i]),u[i],S.dim); }
        auto L=edgeLength(q,o[0],t,S.basis.basis(P[0]).degree(t)+extra);
        for(size_t k=0;k<o[0].size();k++)
        {
            R ds=q.w[k]*std::sqrt(ref::dot(o[0][k].a[t],o[0][k].a[t])); auto at=[&](int i,R a,R b){ Pt x=comb(d[i][k],a,vv[i][k]); if(w) x=comb(x,b,ww[i][k]); return x; };
            if(c0) diff(ds*S.aI*stiff(S,o[0][k],false)/L[k],[&](R a,R b){ return (at(0,a,b).x-o[0][k].x)-(at(1,a,b).x-o[1][k].x); });
            if(c1&&S.dim==3)
            {
                auto mis=[&](const Pt&l,const Pt&r,R*m){ V3 nl=normal(l),nr=normal(r),cl=conormal(l,sd[0]),cr=conormal(r,sd[1]); m[0]=ref::dot(nl,nr); m[1]=ref::dot(cl,nr); m[2]=ref::dot(cr,nl); };
                R m0[3]; mis(o[0][k],o[1][k],m0);
                diff(ds*S.aI*stiff(S,o[0][k],true)/L[k],[&](R a,R b){ R m[3]; mis(at(0,a,b),at(1,a,b),m); return V3{{std::sqrt(2.0L)*(m[0]-m0[0]),m[1]-m0[1],m[2]-m0[2]}}; });
            }
        }
    }
}
// coefficients of the prescribed displacements (free DoFs: zero)
inline MP liftOf(const Asm&a,const gsDofMapper&map){ Vec z=Vec::Zero(map.freeSize(),1); return a.constructDisplacement(z); }
} // namespace gen
