// A10: fields for post-processing; A11: integral quantities, boundary forces and interface errors
#include "shellgen.h"
#include <set>
using namespace gen;
typedef stress_type ST;
struct Frame { V3 e[2]; };
static Frame frame(const Pt&p){ Frame f; f.e[0]=(1/std::sqrt(ref::dot(p.a[0],p.a[0])))*p.a[0]; V3 b=p.a[1]-ref::dot(p.a[1],f.e[0])*f.e[0]; f.e[1]=(1/std::sqrt(ref::dot(b,b)))*b; return f; }
// contravariant components (Voigt 11,22,12) of a symmetric tensor in the basis a -> components in the frame
static A3 contra(const Pt&p,const R*s){ Frame f=frame(p); V3 t[2]; for(int i=0;i<2;i++) t[i]=V3{{0,0,0}}; A3 r; R S[2][2]={{s[0],s[2]},{s[2],s[1]}}; static const int I[3][2]={{0,0},{1,1},{0,1}}; for(int c=0;c<3;c++){ r[c]=0; for(int a=0;a<2;a++)for(int b=0;b<2;b++) r[c]+=S[a][b]*ref::dot(f.e[I[c][0]],p.a[a])*ref::dot(f.e[I[c][1]],p.a[b]); } return r; }
// covariant components
static A3 cova(const Pt&p,const R*s){ M2 A{{{ref::dot(p.a[0],p.a[0]),ref::dot(p.a[0],p.a[1])},{ref::dot(p.a[0],p.a[1]),ref::dot(p.a[1],p.a[1])}}}; M2 Ai=ref::inv(A); Pt q=p; for(int i=0;i<2;i++) q.a[i]=Ai(i,0)*p.a[0]+Ai(i,1)*p.a[1]; Frame f=frame(p); A3 r; R S[2][2]={{s[0],s[2]},{s[2],s[1]}}; static const int I[3][2]={{0,0},{1,1},{0,1}}; for(int c=0;c<3;c++){ r[c]=0; for(int a=0;a<2;a++)for(int b=0;b<2;b++) r[c]+=S[a][b]*ref::dot(f.e[I[c][0]],q.a[a])*ref::dot(f.e[I[c][1]],q.a[b]); } return r; }
static R mises(const A3&s){ return std::sqrt(s[0]*s[0]+s[1]*s[1]-s[0]*s[1]+3*s[2]*s[2]); }
struct TypeName { ST::type t; const char*n; };
static const TypeName TYPES[]={{ST::displacement,"displacement"},{ST::von_mises,"von Mises"},{ST::von_mises_membrane,"von Mises membrane"},{ST::von_mises_flexural,"von Mises flexural"},{ST::membrane,"membrane stress"},{ST::membrane_force,"membrane force"},{ST::membrane_PK2,"membrane PK2 stress"},{ST::membrane_force_PK2,"membrane PK2 force"},{ST::flexural,"flexural stress"},{ST::flexural_PK2,"flexural PK2 stress"},{ST::flexural_moment,"moment"},{ST::flexural_moment_PK2,"PK2 moment"},{ST::membrane_strain,"membrane strain"},{ST::flexural_strain,"flexural strain"},{ST::principal_membrane_strain,"principal membrane strain"},{ST::principal_flexural_strain,"principal flexural strain"},{ST::principal_stretch,"principal stretch"},{ST::principal_stress,"principal stress"},{ST::principal_stress_membrane,"principal membrane stress"},{ST::principal_stress_flexural,"principal flexural stress"},{ST::principal_stretch_dir1,"stretch direction 1"},{ST::principal_stretch_dir2,"stretch direction 2"},{ST::principal_stretch_dir3,"stretch direction 3"},{ST::principal_stress_dir1,"stress direction 1"},{ST::principal_stress_dir2,"stress direction 2"},{ST::principal_stress_dir3,"stress direction 3"},{ST::tension_field,"tension field"}};
typedef gsMaterialMatrixBase<real_t>::uPtr MPtr;
static MPtr wrapTF(int dim,bool lin,gsMaterialMatrixBase<real_t>&m){ if(dim==3) return lin?MPtr(new gsMaterialMatrixTFT<3,real_t,true>(m)):MPtr(new gsMaterialMatrixTFT<3,real_t,false>(m)); return lin?MPtr(new gsMaterialMatrixTFT<2,real_t,true>(m)):MPtr(new gsMaterialMatrixTFT<2,real_t,false>(m)); }
template<short_t d,bool b> static void stressOf(gsThinShellAssemblerBase<real_t>&a,const MP*ori,const MP&def,gsPiecewiseFunction<real_t>&r,ST::type t){ auto&q=static_cast<gsThinShellAssembler<d,real_t,b>&>(a); if(ori) q.constructStress(*ori,def,r,t); else q.constructStress(def,r,t); }
PROP(A10,fields,400,"deformed state with strain > 1e-3; all patches, materials that differ per patch, tension-field materials")
{
    Source&s=ctx.s; ShellOpt o; o.bcs=o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=false; o.pMulti=60; Shell S=shell(ctx,o); int np=S.np();
    std::vector<MatSpec> ms(np,S.m); for(int p=1;p<np;p++) if(s.flag(70)){ Combo c{0,false,1}; if(s.flag(60)) c=combos()[s.draw(combos().size())]; ms[p]=matSpec(s,S.dim,c.mat,c.comp,c.impl,0.1); ctx.desc<<" | "<<ms[p].str(); }
    MP def=deformed(ctx,S,0.15,0.03); const TypeName&T=TYPES[s.draw(sizeof(TYPES)/sizeof(*TYPES))]; ctx.desc<<" type="<<T.n; ctx.label(T.n); ctx.require(S.dim==3||T.t!=ST::flexural_strain);
    std::vector<Mat> U(np); std::vector<std::vector<Pt> > po(np),pd(np); bool strained=false;
    for(int p=0;p<np;p++)
    {
        Mat sup=S.mp.patch(p).support(); int n=s.range(1,3); U[p].resize(2,n); for(int k=0;k<n;k++)for(int i=0;i<2;i++) U[p](i,k)=sup(i,0)+(sup(i,1)-sup(i,0))*s.real(0,1,0.47);
        po[p]=pts(S.mp.patch(p),U[p],S.dim); pd[p]=pts(def.patch(p),U[p],S.dim);
        Scene sc; sc.dim=S.dim; sc.m=ms[p]; sc.u=U[p]; sc.z=Mat::Zero(1,n); for(int k=0;k<n;k++){ sc.so.push_back(asSurf(po[p][k])); sc.sd.push_back(asSurf(pd[p][k])); } ctx.require(admissible(sc,0.4,2.8)); strained|=maxStrain(sc)>1e-3;
    }
    ctx.nontrivial(strained);
    bool tf=s.flag(15)&&T.t!=ST::membrane_force&&T.t!=ST::flexural_moment&&(T.t<90||T.t==ST::tension_field); std::vector<MPtr> keep; gsMaterialMatrixContainer<real_t> c(np); if(tf) ctx.desc<<" tft";
    for(int p=0;p<np;p++){ MPtr m=ms[p].make(S.mp); if(tf){ MPtr t=wrapTF(S.dim,ms[p].mat==0,*m); keep.push_back(std::move(m)); m=std::move(t); } c.set(p,m.get()); keep.push_back(std::move(m)); }
    AsmP a; if(S.dim==2) a.reset(new gsThinShellAssembler<2,real_t,false>(S.mp,S.basis,S.bc,*S.force.fn,c)); else if(S.bend) a.reset(new gsThinShellAssembler<3,real_t,true>(S.mp,S.basis,S.bc,*S.force.fn,c)); else a.reset(new gsThinShellAssembler<3,real_t,false>(S.mp,S.basis,S.bc,*S.force.fn,c));
    gsPiecewiseFunction<real_t> f; int how=s.range(0,2); const MP oc=S.mp;
    if(how==0) a->constructStress(def,f,T.t); else { const MP*q=how==2?&oc:nullptr; if(S.dim==2) stressOf<2,false>(*a,q,def,f,T.t); else if(S.bend) stressOf<3,true>(*a,q,def,f,T.t); else stressOf<3,false>(*a,q,def,f,T.t); }
    ctx.check(f.nPieces()==np,"one function per patch");
    // the deformed geometry is the one given here, also if the materials are used for another state afterwards
    MP other=S.mp; if(s.flag(30)) a->assembleMatrix(other);
    Mat z0=Mat::Zero(1,1); int visits=s.range(1,3);
    for(int v=0;v<visits;v++)
    {
        int p=s.draw(np); const gsFunction<real_t>&fp=static_cast<const gsFunction<real_t>&>(f.piece(p)); Mat A; fp.eval_into(U[p],A); int n=U[p].cols();
        MP so,sd; so.addPatch(S.mp.patch(p).clone()); sd.addPatch(def.patch(p).clone()); MPtr m=ms[p].make(so),t; if(tf) t=wrapTF(S.dim,ms[p].mat==0,*m); auto*q=tf?t.get():m.get();
        auto ev=[&](MaterialOutput id){ return evalOut((int)id,q,&sd,z0,U[p]); }; auto in=[&](MaterialOutput id){ return evalInt((int)id,q,&sd,U[p]); };
        double E=ms[p].E.c0,t0=ms[p].t.c0,sc=1; Mat B; auto tens=[&](const Mat&x,bool cart,bool deformedBasis){ B.resize(3,n); for(int k=0;k<n;k++){ R w[3]={x(0,k),x(1,k),x(2,k)}; A3 r=contra(deformedBasis?pd[p][k]:po[p][k],w); for(int i=0;i<3;i++) B(i,k)=(double)r[i]; } (void)cart; };
        bool linear=ms[p].mat==0&&!tf; bool sign=false; bool skip=false;
        switch(T.t)
        {
            case ST::displacement: B.resize(S.dim,n); for(int k=0;k<n;k++)for(int i=0;i<S.dim;i++) B(i,k)=(double)(pd[p][k].x[i]-po[p][k].x[i]); sc=0.1; break;
            case ST::membrane: tens(ev(MaterialOutput::CauchyStressN),true,true); sc=1e-3*E; break;
            case ST::membrane_PK2: tens(ev(MaterialOutput::StressN),true,false); sc=1e-3*E; break;
            case ST::membrane_force: tens(in(MaterialOutput::CauchyVectorN),true,true); sc=1e-3*E*t0; break;
            case ST::membrane_force_PK2: tens(in(MaterialOutput::VectorN),true,false); sc=1e-3*E*t0; break;
            case ST::flexural: tens(ev(MaterialOutput::CauchyStressM),true,true); sc=1e-3*E; break;
            case ST::flexural_PK2: tens(ev(MaterialOutput::StressM),true,false); sc=1e-3*E; break;
            case ST::flexural_moment: tens(in(MaterialOutput::CauchyVectorM),true,true); sc=1e-3*E*t0*t0; break;
            case ST::flexural_moment_PK2: tens(in(MaterialOutput::VectorM),true,false); sc=1e-3*E*t0*t0; break;
            case ST::von_mises_membrane: case ST::von_mises_flexural: case ST::von_mises:
            {
                tens(ev(MaterialOutput::StressN),true,false); Mat Sm=B; tens(ev(MaterialOutput::StressM),true,false); Mat Sf=B; B.resize(T.t==ST::von_mises?2:1,n); sc=1e-3*E; if(T.t!=ST::von_mises_membrane&&!linear) skip=true;
                for(int k=0;k<n;k++){ R h=ms[p].t(po[p][k].x)/2; auto at=[&](R x,R y){ A3 r; for(int i=0;i<3;i++) r[i]=x*Sm(i,k)+y*Sf(i,k); return (double)mises(r); }; if(T.t==ST::von_mises){ B(0,k)=at(1,h); B(1,k)=at(1,-h); } else B(0,k)= T.t==ST::von_mises_membrane? at(1,0):at(0,1); }
                break;
            }
            case ST::membrane_strain: case ST::flexural_strain: if(S.dim==2&&T.t==ST::flexural_strain){ skip=true; break; } B.resize(3,n); for(int k=0;k<n;k++){ A3 e,kk; strains(po[p][k],pd[p][k],e,kk); A3&x= T.t==ST::membrane_strain?e:kk; R w[3]={x[0],x[1],x[2]/2}; A3 r=cova(po[p][k],w); for(int i=0;i<3;i++) B(i,k)=(double)r[i]; } sc=1e-3; break;
            case ST::principal_membrane_strain: B=ev(MaterialOutput::PStrainN); sc=1e-3; break;
            case ST::principal_flexural_strain: B=ev(MaterialOutput::PStrainM); sc=1e-3; break;
            case ST::principal_stretch: B=ev(MaterialOutput::Stretch); break;
            case ST::principal_stress: B=ev(MaterialOutput::PStress); sc=1e-3*E; break;
            case ST::principal_stress_membrane: B=ev(MaterialOutput::PCauchyStressN); sc=1e-3*E; break;
            case ST::principal_stress_flexural: B=ev(MaterialOutput::PCauchyStressM); sc=1e-3*E; break;
            case ST::principal_stretch_dir1: B=ev(MaterialOutput::StretchDir).block(0,0,3,n); break;
            case ST::principal_stretch_dir2: B=ev(MaterialOutput::StretchDir).block(3,0,3,n); break;
            case ST::principal_stretch_dir3: B=ev(MaterialOutput::StretchDir).block(6,0,3,n); break;
            case ST::principal_stress_dir1: B=ev(MaterialOutput::PStressDir).block(0,0,3,n); break;
            case ST::principal_stress_dir2: B=ev(MaterialOutput::PStressDir).block(3,0,3,n); break;
            case ST::principal_stress_dir3: B=ev(MaterialOutput::PStressDir).block(6,0,3,n); break;
            case ST::tension_field: B=ev(MaterialOutput::TensionField); break;
            default: skip=true;
        }
        (void)sign; if(skip) continue;
        std::string site=std::string("A10/")+T.n; ctx.check(fp.targetDim()==B.rows()&&A.rows()==B.rows()&&A.cols()==n,site+" size",util::to_string(fp.targetDim())+" "+util::to_string(A.rows())+" expected "+util::to_string(B.rows())); ctx.check(fp.domainDim()==2,"domain dimension");
        for(int i=0;i<A.size();i++) if(A.data()[i]!=A.data()[i]&&B.data()[i]!=B.data()[i]) A.data()[i]=B.data()[i]=0;
        ctx.closeM(A,B,std::max(sc,B.size()?B.cwiseAbs().maxCoeff():0),1e-9,site);
    }
}

// ------------------------------------------------------------------------------------------ A11
// integral of f over the patches with the Gauss rule of degree+extra points
static R integrate(const Shell&S,const MP&ori,const MP&def,int extra,std::function<R(int,const Pt&,const Pt&)> f)
{
    R r=0; for(int p=0;p<S.np();p++){ QP q=quad(S.basis.basis(p),extra); auto o=pts(ori.patch(p),q.u,S.dim),d=pts(def.patch(p),q.u,S.dim); for(size_t k=0;k<o.size();k++) r+=q.w[k]*f(p,o[k],d[k]); } return r;
}
PROP(A11,integrals,150,"curved or multi-element surface and a non-zero displacement")
{
    Source&s=ctx.s; ShellOpt o; o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=false; o.clamped=false; Shell S=shell(ctx,o); MP def=deformed(ctx,S,0.15,0.03); ctx.require(okState(S,def,2,0.4,2.8)&&okState(S,def,1,0.4,2.8));
    AsmP a=S.make(S.mat.get()); if(s.flag(30)) a->assemble(); if(s.flag(30)) a->assembleMatrix(def);
    R A0=integrate(S,S.mp,S.mp,1,[](int,const Pt&x,const Pt&){ R J; normal(x,&J); return J; }),A1=integrate(S,def,def,1,[](int,const Pt&x,const Pt&){ R J; normal(x,&J); return J; });
    ctx.close(a->getArea(S.mp),(double)A0,(double)A0,1e-12,"A11/area"); ctx.close(a->getArea(def),(double)A1,(double)A1,1e-12,"A11/deformed area");
    R u2=integrate(S,S.mp,def,1,[](int,const Pt&x,const Pt&y){ R J; normal(x,&J); V3 u=y.x-x.x; return J*ref::dot(u,u); }); ctx.nontrivial(u2>1e-12); ctx.close(a->getDisplacementNorm(def),(double)std::sqrt(u2/A0),(double)std::sqrt(u2/A0)+1e-12,1e-11,"A11/displacement norm");
    if(S.m.mat==0)
    {
        R sc=0,W=integrate(S,S.mp,def,1,[&](int,const Pt&x,const Pt&y){ R J; normal(x,&J); A3 N,M,e,k; strains(x,y,e,k); resultants(S.m,x,y,N,M); R w=0; for(int i=0;i<3;i++) w+=N[i]*e[i]+(S.bend?M[i]*k[i]:0); return J*w/2; });
        sc=std::abs(W)+1e-10*S.m.E.c0*S.m.t.c0; ctx.close(a->getElasticEnergy(def),(double)W,(double)sc,1e-10,"A11/elastic energy");
    }
}
PROP(A11,force,150,"deformed state with strain > 1e-3 and one to three sides")
{
    Source&s=ctx.s; ShellOpt o; o.pMulti=50; Shell S=shell(ctx,o); MP def=deformed(ctx,S,0.15,0.03); if(S.cont==0&&S.np()>1) def=deformed(ctx,S,0.15,0.0); ctx.require(okState(S,def,2,0.4,2.8)&&okState(S,def,1,0.4,2.8)); int np=S.np();
    AsmP a=S.make(S.mat.get()); std::vector<patchSide> sides; int n=s.range(1,3); for(int i=0;i<n;i++){ patchSide q(s.draw(np),boxSide(1+s.draw(4))); sides.push_back(q); ctx.desc<<" "<<q.patch<<":"<<q.side(); }
    Mat F= n==1&&s.flag(50)? a->boundaryForce(def,sides[0]) : a->boundaryForce(def,sides); ctx.check(F.size()==S.dim,"A11/force size","size");
    // control points of the sides; on a matched interface they belong to both patches
    std::vector<std::set<int> > on(np); for(auto&q:sides){ gsMatrix<index_t> b=S.basis.basis(q.patch).boundary(q.side()); for(int k=0;k<b.rows();k++) on[q.patch].insert(b(k,0)); }
    if(S.cont==0) for(int round=0;round<3;round++) for(auto bi:S.mp.topology().interfaces()){ gsMatrix<index_t> b1,b2; S.basis.basis(bi.first().patch).matchWith(bi,S.basis.basis(bi.second().patch),b1,b2); for(int k=0;k<b1.rows();k++){ int i=b1(k,0),j=b2(k,0),P=bi.first().patch,Q=bi.second().patch; if(on[P].count(i)) on[Q].insert(j); else if(on[Q].count(j)) on[P].insert(i); } }
    for(int c=0;c<S.dim;c++)
    {
        MP v; for(int p=0;p<np;p++){ Mat m=Mat::Zero(S.basis.basis(p).size(),S.dim); for(int k:on[p]) m(k,c)=1; v.addPatch(S.basis.basis(p).makeGeometry(give(m))); }
        Shell T=S; T.hasPress=T.hasFound=false; T.neu.clear(); T.pl.clear(); Work W=virtualWork(T,def,v,1); ctx.nontrivial(std::abs(W.in)>1e-6*S.m.E.c0*S.m.t.c0); ctx.close(F(c,0),(double)-W.in,(double)(W.scale+1e-3*S.m.E.c0*S.m.t.c0),1e-8,"A11/boundary force");
    }
}
PROP(A11,interface,120,"two patches whose deformed positions, normals or curvatures differ at the interface")
{
    Source&s=ctx.s; ShellOpt o; o.bcs=o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=o.hyper=false; o.pMulti=100; o.dim=3; Shell S=shell(ctx,o); MP def=deformed(ctx,S,0.15,s.flag(30)?0.0:0.03); AsmP a=S.make(S.mat.get());
    bool one=s.flag(30+20*(S.np()>2)); int mask=one? 1+s.draw((1<<S.mp.nInterfaces())-1):-1; const auto I=S.ifcs(true,mask);
    R c0=0,g1=0,nm=0,gc=0,mc=0,sg=0,sm=0; for(auto bi:I)
    {
    int P[2]={(int)bi.first().patch,(int)bi.second().patch}; QP q=quadSide(S.basis.basis(P[0]),bi.first().side(),1); Mat u2=ifcPoints(S.mp,bi,q.u); auto l=pts(def.patch(P[0]),q.u,3),r=pts(def.patch(P[1]),u2,3);
    for(size_t k=0;k<l.size();k++)
    {
        ref::Surf x=asSurf(l[k]),y=asSurf(r[k]); V3 d=x.x-y.x,n=x.n-y.n; c0+=q.w[k]*ref::dot(d,d); g1+=q.w[k]*ref::dot(n,n); nm=std::max(nm,std::sqrt(ref::dot(n,n)));
        auto cur=[](const ref::Surf&f,R&K,R&H){ M2 w=ref::mul(ref::inv(f.A),f.B); K=ref::det(w); H=(w(0,0)+w(1,1))/2; }; R K1,K2,H1,H2; cur(x,K1,H1); cur(y,K2,H2); gc=std::max(gc,std::abs(K1-K2)); mc=std::max(mc,std::abs(H1-H2)); sg=std::max(sg,std::max(std::abs(K1),H1*H1)); sm=std::max(sm,std::abs(H1));
    }
    }
    ctx.nontrivial(c0>1e-10);
#define E(f) (one? a->f(def,I):a->f(def))
    ctx.close(E(interfaceErrorC0),(double)std::sqrt(c0),1,1e-10,"A11/C0 error"); ctx.close(E(interfaceErrorG1),(double)std::sqrt(g1),1,1e-9,"A11/G1 error"); ctx.close(E(interfaceErrorNormal),(double)nm,1,1e-9,"A11/normal error");
    ctx.close(E(interfaceErrorGaussCurvature),(double)gc,(double)sg+1,1e-8,"A11/Gauss curvature error"); ctx.close(E(interfaceErrorMeanCurvature),(double)mc,(double)sm+1,1e-8,"A11/mean curvature error");
#undef E
}
// principal values at points of the first patch
PROP(A10,principal,100,"deformed state, at a height in the shell")
{
    Source&s=ctx.s; ShellOpt o; o.bcs=o.loads=o.pointLoads=o.neumann=o.pressure=o.foundation=false; o.pMulti=30; Shell S=shell(ctx,o); MP def=deformed(ctx,S,0.15,0.03);
    Mat sup=S.mp.patch(0).support(); int n=s.range(1,3); Mat u(2,n); for(int k=0;k<n;k++)for(int i=0;i<2;i++) u(i,k)=sup(i,0)+(sup(i,1)-sup(i,0))*s.real(0,1,0.47); double z=s.flag(40)?0:s.real(-0.5,0.5,0.0); Mat zm(1,1); zm(0,0)=z; ctx.desc<<" z="<<z;
    auto po=pts(S.mp.patch(0),u,S.dim),pd=pts(def.patch(0),u,S.dim); Scene sc; sc.dim=S.dim; sc.m=S.m; sc.u=u; sc.z=Mat::Constant(1,n,z); for(int k=0;k<n;k++){ sc.so.push_back(asSurf(po[k])); sc.sd.push_back(asSurf(pd[k])); } ctx.require(admissible(sc,0.4,2.8)); ctx.nontrivial(maxStrain(sc)>1e-3);
    AsmP a=S.make(S.mat.get(),s.flag(30)); if(s.flag(30)&&a->numDofs()) a->assembleMatrix(S.mp); bool stretch=s.flag(50); Mat A=stretch?a->computePrincipalStretches(u,def,z):a->computePrincipalStresses(u,def,z);
    MP so,sd; so.addPatch(S.mp.patch(0).clone()); sd.addPatch(def.patch(0).clone()); MPtr m=S.m.make(so); Mat B=evalOut((int)(stretch?MaterialOutput::Stretch:MaterialOutput::PStress),m.get(),&sd,zm,u);
    ctx.check(A.cols()==n&&A.rows()==B.rows(),"A10/principal size"); ctx.closeM(A,B,stretch?1:1e-3*S.m.E.c0,1e-9,stretch?"A10/principal stretches":"A10/principal stresses");
}
