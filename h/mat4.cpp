// M10 laminates, M11 tension fields
#include "matgen.h"
#include <gsKLShell/src/gsMaterialMatrixTFT.h>
using namespace gen;

// ------------------------------------------------------------------------------------------ M10
struct Ply { Field t,al,rho; double E1,E2,G12,nu12; std::shared_ptr<gsFunctionSet<real_t> > G; };
struct Lam {
    int dim; gsMultiPatch<real_t> mp,def; Mat u; std::vector<Ply> p; std::vector<ref::Surf> so,sd;
    std::vector<gsFunctionSet<real_t>*> T,G,A,Rh;
    void ptrs(){ T.clear();G.clear();A.clear();Rh.clear(); for(auto&q:p){ T.push_back(q.t.fn.get()); G.push_back(q.G.get()); A.push_back(q.al.fn.get()); Rh.push_back(q.rho.fn.get()); } }
    gsMaterialMatrixBase<real_t>::uPtr make(bool rho=true)
    {
        ptrs(); typedef gsMaterialMatrixBase<real_t>::uPtr P;
        if(dim==3) return rho? P(new gsMaterialMatrixComposite<3,real_t>(mp,T,G,A,Rh)) : P(new gsMaterialMatrixComposite<3,real_t>(mp,T,G,A));
        return rho? P(new gsMaterialMatrixComposite<2,real_t>(mp,T,G,A,Rh)) : P(new gsMaterialMatrixComposite<2,real_t>(mp,T,G,A));
    }
};
static std::shared_ptr<gsFunctionSet<real_t> > plyG(const Ply&q,int dim)
{
    Mat G=gsCompositeMatrixRaw<real_t>(q.E1/(1-q.nu12*q.nu12*q.E2/q.E1), q.E2/(1-q.nu12*q.nu12*q.E2/q.E1), q.G12, q.nu12*q.E2/(1-q.nu12*q.nu12*q.E2/q.E1), 0.0, 0.0);
    G.resize(9,1); return std::shared_ptr<gsFunctionSet<real_t> >(new gsConstantFunction<real_t>(gsVector<real_t>(G.col(0)),dim));
}
static Ply ply(Source&s,int dim,bool var=true)
{
    Ply q; q.t=field(s,s.logreal(1e-3,0.05,0.01),dim,0.05,var); q.al=field(s,s.real(-3.2,3.2,0.0),dim,0.3,var); q.rho=field(s,s.logreal(0.1,10,1.0),dim,0.05,var);
    q.E1=s.logreal(0.5,50,1.0); q.E2=s.flag(25)?q.E1:s.logreal(0.5,50,1.0); double nm=0.8*std::sqrt(q.E1/q.E2); q.nu12=s.real(0,std::min(nm,0.45),std::min(nm,0.3)); q.G12=s.logreal(0.2,20,0.4); q.G=plyG(q,dim);
    return q;
}
static Lam laminate(Ctx&ctx,int nmax,bool var=true)
{
    Source&s=ctx.s; Lam L; L.dim=s.flag(30)?2:3; GeoOpt go; go.minDeg=L.dim==3?2:1; L.mp.addPatch(patch(s,L.dim,go)); L.def=L.mp; DefOpt d; d.stretch=0.3; deform(s,L.def.patch(0),L.dim,d,ctx.desc);
    int n=s.range(1,nmax); for(int i=0;i<n;i++) L.p.push_back(ply(s,L.dim,var)); L.u=points(s,s.range(1,4));
    ctx.desc<<" d="<<L.dim<<" plies="<<n; for(auto&q:L.p) ctx.desc<<" ["<<q.t.c0<<","<<q.al.c0<<","<<q.E1<<","<<q.E2<<"]";
    for(int k=0;k<L.u.cols();k++){ Mat p=L.u.col(k); L.so.push_back(ref::surf(L.mp.patch(0),p,L.dim)); L.sd.push_back(ref::surf(L.def.patch(0),p,L.dim)); ctx.require(L.so[k].J>0.05&&ref::det(L.so[k].A)>1e-3*L.so[k].A(0,0)*L.so[k].A(1,1)); for(auto&q:L.p) ctx.require(q.t(L.so[k].x)>1e-4&&q.rho(L.so[k].x)>0); }
    return L;
}
typedef std::array<std::array<R,3>,3> M3;
// independent: fourth-order tensor of the ply in its own axes, rotated to the shell axes, pulled to contravariant components
static M3 plyC(const Ply&q,const ref::Surf&s)
{
    V3 e1=(1/std::sqrt(ref::dot(s.a1,s.a1)))*s.a1, e2=ref::cross(s.n,e1); R al=q.al(s.x);
    // fibre axes, counter-clockwise from e1 about the normal
    V3 f[2]={ std::cos(al)*e1+std::sin(al)*e2, (-std::sin(al))*e1+std::cos(al)*e2 };
    R D=1-(R)q.nu12*q.nu12*q.E2/q.E1; R C[2][2][2][2]={{{{0}}}}; C[0][0][0][0]=q.E1/D; C[1][1][1][1]=q.E2/D; C[0][0][1][1]=C[1][1][0][0]=q.nu12*q.E2/D;
    C[0][1][0][1]=C[1][0][0][1]=C[0][1][1][0]=C[1][0][1][0]=q.G12;
    M2 Ai=ref::inv(s.A); V3 ac[2]={ Ai(0,0)*s.a1+Ai(0,1)*s.a2, Ai(1,0)*s.a1+Ai(1,1)*s.a2 };
    R c[2][2]; for(int a=0;a<2;a++)for(int i=0;i<2;i++) c[a][i]=ref::dot(ac[a],f[i]);
    auto t=[&](int a,int b,int g,int d){ R v=0; for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<2;k++)for(int l=0;l<2;l++) v+=c[a][i]*c[b][j]*c[g][k]*c[d][l]*C[i][j][k][l]; return v; };
    int I[3][2]={{0,0},{1,1},{0,1}}; M3 r; for(int a=0;a<3;a++)for(int b=0;b<3;b++) r[a][b]=t(I[a][0],I[a][1],I[b][0],I[b][1]); return r;
}
// A,B,D of the stack; the first ply lies on the side of the normal
static void abd(const Lam&L,int k,M3 out[3])
{
    for(int m=0;m<3;m++)for(auto&r:out[m])r.fill(0);
    R tt=0; for(auto&q:L.p) tt+=q.t(L.so[k].x); R top=tt/2;
    for(auto&q:L.p){ R t=q.t(L.so[k].x),hi=top,lo=top-t; top=lo; M3 C=plyC(q,L.so[k]); R w[3]={hi-lo,(hi*hi-lo*lo)/2,(hi*hi*hi-lo*lo*lo)/3}; for(int m=0;m<3;m++)for(int a=0;a<3;a++)for(int b=0;b<3;b++) out[m][a][b]+=w[m]*C[a][b]; }
}
static double mmax(const M3&m){ R v=1e-300L; for(auto&r:m)for(R x:r)v=std::max(v,std::abs(x)); return (double)v; }
static Mat toMat(const M3&m){ Mat r(3,3); for(int a=0;a<3;a++)for(int b=0;b<3;b++) r(a,b)=(double)m[a][b]; return r; }
PROP(M10,stiffness,1500,"laminates of 1-6 orthotropic plies with position-dependent angle, thickness and density on general surfaces: extensional, coupling and bending stiffness, mass per area against classical lamination theory computed from the fourth-order tensors of the plies; non-trivial: a skew parametrisation or an angle that is no multiple of 90 degrees")
{
    Lam L=laminate(ctx,6); auto mm=L.make(); int n=L.u.cols();
    bool nt=false; for(int k=0;k<n;k++) nt|=std::abs(L.so[k].A(0,1))>1e-6; for(auto&q:L.p) nt|=std::abs(std::sin(2*q.al.c0))>1e-6; ctx.nontrivial(nt); ctx.label("plies "+std::to_string(L.p.size()));
    Mat a=evalI<MaterialOutput::MatrixA>(mm.get(),&L.def,L.u),b=evalI<MaterialOutput::MatrixB>(mm.get(),&L.def,L.u),c=evalI<MaterialOutput::MatrixC>(mm.get(),&L.def,L.u),d=evalI<MaterialOutput::MatrixD>(mm.get(),&L.def,L.u),r=evalI<MaterialOutput::Density>(mm.get(),&L.def,L.u);
    ctx.check(a.cols()==n&&b.cols()==n&&c.cols()==n&&d.cols()==n&&r.cols()==n,"columns");
    for(int k=0;k<n;k++)
    {
        M3 o[3]; abd(L,k,o); R tt=0,rr=0; for(auto&q:L.p){ tt+=q.t(L.so[k].x); rr+=q.t(L.so[k].x)*q.rho(L.so[k].x); }
        double s=mmax(o[0]);
        ctx.closeM(Mat(a.reshapeCol(k,3,3)),toMat(o[0]),s,1e-9,"extensional stiffness");
        ctx.closeM(Mat(b.reshapeCol(k,3,3)),toMat(o[1]),s*(double)tt,1e-9,"coupling stiffness B");
        ctx.closeM(Mat(c.reshapeCol(k,3,3)),toMat(o[1]),s*(double)tt,1e-9,"coupling stiffness C");
        ctx.closeM(Mat(d.reshapeCol(k,3,3)),toMat(o[2]),mmax(o[2]),1e-9,"bending stiffness");
        ctx.close(r(0,k),(double)rr,(double)rr,1e-12,"mass per area");
    }
}
PROP(M10,resultants,1200,"laminates as above, deformed: membrane forces and moments are the stack's stiffnesses applied to membrane strain and curvature change, including the membrane-bending coupling of unsymmetric stacks; non-trivial: coupling stiffness and strain not zero")
{
    Lam L=laminate(ctx,5); auto mm=L.make(ctx.s.flag()); int n=L.u.cols();
    Mat N=evalI<MaterialOutput::VectorN>(mm.get(),&L.def,L.u),M=evalI<MaterialOutput::VectorM>(mm.get(),&L.def,L.u); ctx.check(N.cols()==n&&M.cols()==n&&N.rows()==3&&M.rows()==3,"shape");
    for(int k=0;k<n;k++)
    {
        M3 o[3]; abd(L,k,o); M2 e=ref::lin(0.5L,L.sd[k].A,-0.5L,L.so[k].A),ka=ref::lin(1,L.so[k].B,-1,L.sd[k].B); R ev[3]={e(0,0),e(1,1),2*e(0,1)},kv[3]={ka(0,0),ka(1,1),2*ka(0,1)},tt=0; for(auto&q:L.p) tt+=q.t(L.so[k].x);
        R em=0,km=0; for(int i=0;i<3;i++){ em=std::max(em,std::abs(ev[i])); km=std::max(km,std::abs(kv[i])); } ctx.nontrivial(em>1e-6&&km>1e-6&&mmax(o[1])>1e-6*mmax(o[0])*(double)tt);
        double s=mmax(o[0]);
        for(int a=0;a<3;a++){ R x=0,y=0; for(int b=0;b<3;b++){ x+=o[0][a][b]*ev[b]+o[1][a][b]*kv[b]; y+=o[1][a][b]*ev[b]+o[2][a][b]*kv[b]; }
            ctx.close(N(a,k),(double)x,s*(double)(1+em+tt*km),1e-9,"membrane force"); ctx.close(M(a,k),(double)y,s*(double)(tt*(em+tt*km)+tt*tt),1e-9,"moment"); }
    }
}
PROP(M10,relations,1000,"splitting a ply in two, turning a ply by 180 degrees, reversing the order of the stack, and one isotropic ply against the linear isotropic law; non-trivial: more than one ply or a skew parametrisation")
{
    Lam L=laminate(ctx,4); auto m1=L.make(); int n=L.u.cols(); Lam L2=L; int how=ctx.s.range(0,3); ctx.desc<<" how="<<how; ctx.nontrivial(L.p.size()>1||std::abs(L.so[0].A(0,1))>1e-6); ctx.label("relation "+std::to_string(how));
    const gsMultiPatch<real_t>*d=&L.def;
    double tt=0,s=0; for(auto&q:L.p){ tt+=q.t.c0; } { M3 o[3]; for(int k=0;k<n;k++){ abd(L,k,o); s=std::max(s,mmax(o[0])); } }
    if(how==3)
    {   // one isotropic ply
        Ply q=ply(ctx.s,L.dim,false); q.E2=q.E1; q.G12=q.E1/(2*(1+q.nu12)); q.G=plyG(q,L.dim); L2.p.assign(1,q); auto m2=L2.make(); MatSpec ms; ms.dim=L.dim; ms.t=q.t; ms.rho=q.rho; ms.E.dim=ms.nu.dim=L.dim; ms.E.c0=q.E1; ms.E.make(); ms.nu.c0=q.nu12; ms.nu.make(); auto iso=ms.make(L.mp);
        for(int k=0;k<n;k++){ M3 o[3]; abd(L2,k,o); s=std::max(s,mmax(o[0])); }
        for(int id:{(int)MaterialOutput::MatrixA,(int)MaterialOutput::MatrixD,(int)MaterialOutput::VectorN,(int)MaterialOutput::VectorM,(int)MaterialOutput::Density}) { Mat x=evalInt(id,m2.get(),d,L.u),y=evalInt(id,iso.get(),d,L.u); double f=id==(int)MaterialOutput::Density?1:s*10; if(id==(int)MaterialOutput::MatrixD) f=s*q.t.c0*q.t.c0; ctx.closeM(x,y,f,1e-8,"isotropic ply: "+outName(id)); }
        return;
    }
    bool rev=false;
    if(how==0){ int i=ctx.s.draw(L2.p.size()); Ply q=L2.p[i]; double f=ctx.s.real(0.1,0.9,0.5); Ply a=q,b=q; a.t.c0*=f; b.t.c0*=1-f; for(int j=0;j<3;j++){ a.t.c[j]*=f; b.t.c[j]*=1-f; } a.t.make(); b.t.make(); L2.p[i]=a; L2.p.insert(L2.p.begin()+i+1,b); }
    if(how==1){ int i=ctx.s.draw(L2.p.size()); L2.p[i].al.c0+=3.14159265358979323846; L2.p[i].al.make(); }
    if(how==2){ std::reverse(L2.p.begin(),L2.p.end()); rev=true; }
    auto m2=L2.make();
    for(int id:{(int)MaterialOutput::MatrixA,(int)MaterialOutput::MatrixB,(int)MaterialOutput::MatrixD,(int)MaterialOutput::Density}) { Mat x=evalInt(id,m2.get(),d,L.u),y=evalInt(id,m1.get(),d,L.u); if(rev&&id==(int)MaterialOutput::MatrixB) y=-y; double f=id==(int)MaterialOutput::Density?10:s; if(id==(int)MaterialOutput::MatrixB) f*=tt; if(id==(int)MaterialOutput::MatrixD) f*=tt*tt; ctx.closeM(x,y,f,1e-9,"laminate relation "+outName(id)); }
}
PROP(M10,batch,600,"laminates: several points at once against one point of a fresh laminate, thickness output, evaluation without a deformed geometry, clones; non-trivial: more than one point")
{
    Lam L=laminate(ctx,4); auto mm=L.make(); int n=L.u.cols(); ctx.nontrivial(n>1); int k=ctx.s.draw(n); bool warm=ctx.s.flag(); if(warm) evalI<MaterialOutput::VectorM>(mm.get(),&L.mp,L.u);
    auto cl=mm->clone();
    for(int id:{(int)MaterialOutput::MatrixA,(int)MaterialOutput::MatrixB,(int)MaterialOutput::MatrixD,(int)MaterialOutput::Density,(int)MaterialOutput::VectorN,(int)MaterialOutput::VectorM})
    { auto fr=L.make(); Mat x=evalInt(id,mm.get(),&L.def,L.u),y=evalInt(id,fr.get(),&L.def,L.u.col(k)),z=evalInt(id,cl.get(),&L.def,L.u); double s=std::max(1e-9,x.cwiseAbs().maxCoeff()); ctx.check(x.cols()==n&&y.cols()==1,"columns"); ctx.closeM(Mat(x.col(k)),y,s,1e-10,"single point "+outName(id)); ctx.closeM(z,x,s,1e-12,"clone "+outName(id)); }
    auto t=L.make(ctx.s.flag()); Mat th; t->thickness_into(0,L.u,th); ctx.check(th.rows()==(int)L.p.size()&&th.cols()==n,"shape of the ply thicknesses"); for(int q=0;q<n;q++) for(size_t i=0;i<L.p.size();i++) ctx.close(th(i,q),L.p[i].t(L.so[q].x),L.p[i].t(L.so[q].x),1e-12,"ply thickness");
    auto w=L.make(); Mat z0(1,1); z0.setZero(); Mat x=w->eval3D_matrix(0,L.u,z0,MaterialOutput::MatrixA); Mat y=evalI<MaterialOutput::MatrixA>(mm.get(),&L.def,L.u); ctx.closeM(x,y,y.cwiseAbs().maxCoeff(),1e-12,"stiffness without a deformed geometry");
}
PROP(M10,factory,300,"the helper that builds a ply stiffness from engineering constants; non-trivial: E1 != E2")
{
    Source&s=ctx.s; double E1=s.logreal(0.5,50,1.0),k=std::pow(2.0,s.range(-3,3)),E2=E1*k,nu12=s.real(0,0.4,0.25),nu21=nu12*k,G=s.logreal(0.2,20,0.4); ctx.require(nu12*nu21<0.9); ctx.nontrivial(k!=1); ctx.desc<<E1<<" "<<E2<<" "<<nu12<<" "<<G;
    Mat C=gsCompositeMatrix<real_t>(E1,E2,G,nu12,nu21); Mat S(3,3); S.setZero(); S(0,0)=1/E1; S(1,1)=1/E2; S(0,1)=S(1,0)=-nu12/E1; S(2,2)=1/G; Mat I=C*S; ctx.closeM(I,Mat(Mat::Identity(3,3)),1,1e-12,"stiffness times compliance");
    double g[6]; for(double&x:g)x=s.sym(5); Mat Rw=gsCompositeMatrixRaw<real_t>(g[0],g[1],g[2],g[3],g[4],g[5]); Mat X(3,3); X<<g[0],g[3],g[4],g[3],g[1],g[5],g[4],g[5],g[2]; ctx.closeM(Rw,X,1,0,"raw ply");
}

// ------------------------------------------------------------------------------------------ M11
typedef gsMaterialMatrixBase<real_t>::uPtr MP;
static MP tft(int dim,bool linear,gsMaterialMatrixBase<real_t>*m)
{
    if(dim==3) return linear? MP(new gsMaterialMatrixTFT<3,real_t,true>(m)) : MP(new gsMaterialMatrixTFT<3,real_t,false>(m));
    return linear? MP(new gsMaterialMatrixTFT<2,real_t,true>(m)) : MP(new gsMaterialMatrixTFT<2,real_t,false>(m));
}
// principal values of the underlying law at (point,height), ascending
static void principal(const Scene&sc,int j,int k,bool linear,R Sp[2],R Ep[2])
{
    M2 Go=sc.Go(j,k),Gd=sc.Gd(j,k); M2 E=ref::lin(0.5L,Gd,-0.5L,Go); M2 L=ref::chol(Go),Li=ref::inv(L); M2 q;
    ref::eig2(ref::mul(ref::mul(Li,E),ref::tr(Li)),Ep,q);
    M2 S; if(linear){ R C[3][3]; ref::linearC(sc.m.E(sc.so[k].x),sc.m.nu(sc.so[k].x),ref::inv(sc.so[k].A),C); R e[3]={E(0,0),E(1,1),2*E(0,1)},v[3]; for(int a=0;a<3;a++){ v[a]=0; for(int b=0;b<3;b++) v[a]+=C[a][b]*e[b]; } S=M2{{{v[0],v[2]},{v[2],v[1]}}}; }
    else S=ref::stress(sc.m.law(sc.so[k].x),Go,Gd);
    M2 Lt=ref::tr(L); ref::eig2(ref::mul(ref::mul(Lt,S),L),Sp,q);
}
static int stateOf(int opt,const R Sp[2],const R Ep[2]){ if(opt==0) return Ep[0]>0?1: Ep[1]<0?-1:0; if(opt==1) return Sp[0]>0?1: Sp[1]<0?-1:0; return Sp[0]>0?1: Ep[1]<0?-1:0; }
// strained states of every kind on a plate or a gently curved shell
static Scene tfScene(Ctx&ctx,int dim,const Combo&c,int maxpts,int maxz)
{
    Source&s=ctx.s; Scene sc; sc.dim=dim; sc.m=matSpec(s,dim,c.mat,c.comp,c.impl,0.02); GeoOpt go; go.minDeg=dim==3?2:1; go.flat=s.flag(50); go.curv=0.2; sc.mp.addPatch(patch(s,dim,go)); sc.def=sc.mp;
    double a=c.mat? 0.25:0.3; double F[9]={0}; for(int i=0;i<dim;i++)F[i*dim+i]=1; int mode=s.range(0,3); ctx.desc<<" tf="<<mode;
    // stretch one direction, shorten another, shear; or anything
    double th=s.sym(1.6),l1=1+s.real(0.02,a,0.1),l2= mode==0? 1-s.real(0.0,0.2,0.1) : mode==1? 1+s.real(0.0,a,0.1) : mode==2? 1-s.real(0.02,0.2,0.1) : 1-s.real(0.0,0.05,0.01);
    if(mode==2) l1=1-s.real(0.02,0.15,0.05); double cs=std::cos(th),sn=std::sin(th);
    double U[4]={l1*cs*cs+l2*sn*sn,(l1-l2)*cs*sn,(l1-l2)*cs*sn,l1*sn*sn+l2*cs*cs}; F[0]=U[0];F[1]=U[1];F[dim]=U[2];F[dim+1]=U[3]; 
    applyT(sc.def.patch(0).coefs(),F,dim); if(s.flag(40)){ Mat&co=sc.def.patch(0).coefs(); for(int r=0;r<co.rows();r++)for(int i=0;i<dim;i++) co(r,i)+=s.sym(0.01); }
    sc.u=points(s,s.range(1,maxpts)); int nz=s.range(1,maxz); sc.z.setZero(nz,sc.u.cols()); if(dim==2) sc.z=zpoints(s,nz,sc.u.cols(),false);
    sc.surfaces(); describe(ctx.desc,sc); ctx.desc<<" l=("<<l1<<","<<l2<<","<<th<<")"; ctx.require(admissible(sc,0.5,2)); for(auto&q:sc.so) ctx.require(ref::det(q.A)>0.05L*q.A(0,0)*q.A(1,1)); return sc;
}
static Combo tfCombo(Ctx&ctx){ return ctx.s.flag(40)? Combo{0,false,1} : combo(ctx); }
PROP(M11,classify,1500,"every law, all three criteria: taut, wrinkled and slack states as the signs of the principal stresses/strains say; non-trivial: a wrinkled or slack point")
{
    int dim=dimOf(ctx.s); Combo c=tfCombo(ctx); Scene sc=tfScene(ctx,dim,c,4,2); bool lin=c.mat==0; auto mm=sc.m.make(sc.mp); int opt=ctx.s.range(0,2); bool dflt=ctx.s.flag(30); if(dflt) opt=2; else mm->options().setInt("TensionField",opt); ctx.desc<<" opt="<<opt;
    bool wrap=ctx.s.flag(40); MP t; if(wrap) t=tft(dim,lin,mm.get()); auto*m=wrap?t.get():mm.get(); Mat TF=evalZ<MaterialOutput::TensionField>(m,&sc.def,sc.z,sc.u); int n=sc.n(); ctx.check(TF.rows()==1&&TF.cols()==n*sc.z.rows(),"shape");
    for(int k=0;k<n;k++)for(int j=0;j<sc.z.rows();j++){ R Sp[2],Ep[2]; principal(sc,j,k,lin,Sp,Ep); R E=sc.m.E(sc.so[k].x); bool clear=true; for(int i=0;i<2;i++) clear&=std::abs(Sp[i])>1e-7*E&&std::abs(Ep[i])>1e-7; if(!clear) continue; int st=stateOf(opt,Sp,Ep); ctx.nontrivial(st<1); ctx.label(st==1?"taut":st==0?"wrinkled":"slack"); ctx.close(TF(0,j*n+k),st,1,1e-12,"tension field "+cname(c,dim)); }
}
// stress state of the wrapped material in state st
PROP(M11,stress,1500,"wrapped materials: taut points answer as the underlying law, slack points carry the slack fraction of it, wrinkled points are in uniaxial tension reached by a non-negative wrinkling strain across the wrinkles; non-trivial: a wrinkled or slack point")
{
    int dim=dimOf(ctx.s); Combo c=tfCombo(ctx); Scene sc=tfScene(ctx,dim,c,4,2); bool lin=c.mat==0; auto mm=sc.m.make(sc.mp),un=sc.m.make(sc.mp); MP t=tft(dim,lin,mm.get()); double sl=ctx.s.flag(40)?ctx.s.logreal(1e-4,0.5,0.1):0; t->options().setReal("SlackMultiplier",sl); un->setDeformed(&sc.def);
    int n=sc.n(),nz=sc.z.rows();
    Mat S=evalZ<MaterialOutput::VectorN>(t.get(),&sc.def,sc.z,sc.u),Q=evalZ<MaterialOutput::Stress>(t.get(),&sc.def,sc.z,sc.u),St=evalZ<MaterialOutput::Strain>(t.get(),&sc.def,sc.z,sc.u),Th=evalZ<MaterialOutput::Theta>(t.get(),&sc.def,sc.z,sc.u),Ga=evalZ<MaterialOutput::Gamma>(t.get(),&sc.def,sc.z,sc.u),Ca=evalZ<MaterialOutput::CauchyStressN>(t.get(),&sc.def,sc.z,sc.u),MA=evalZ<MaterialOutput::MatrixA>(t.get(),&sc.def,sc.z,sc.u);
    Mat S0=un->eval3D_stress(0,sc.u,sc.z,MaterialOutput::VectorN),E0=un->eval3D_strain(0,sc.u,sc.z),C0=un->eval3D_matrix(0,sc.u,sc.z,MaterialOutput::MatrixA),Ca0=un->eval3D_CauchyStress(0,sc.u,sc.z,MaterialOutput::CauchyStressN);
    ctx.check(S.cols()==n*nz&&Th.cols()==n*nz&&Ga.cols()==n*nz&&St.cols()==n*nz&&Ca.cols()==n*nz&&MA.cols()==n*nz,"columns");
    std::string nm=" "+cname(c,dim);
    for(int k=0;k<n;k++)for(int j=0;j<nz;j++)
    {
        int q=j*n+k; R Sp[2],Ep[2]; principal(sc,j,k,lin,Sp,Ep); R E=sc.m.E(sc.so[k].x); bool clear=true; for(int i=0;i<2;i++) clear&=std::abs(Sp[i])>1e-5*E&&std::abs(Ep[i])>1e-5; if(!clear) continue;
        int st=stateOf(2,Sp,Ep); ctx.nontrivial(st<1); ctx.label(st==1?"taut":st==0?"wrinkled":"slack"); Mat C=C0.reshapeCol(q,3,3); double cs=C.cwiseAbs().maxCoeff(),ss=S0.col(q).cwiseAbs().maxCoeff(),es=E0.col(q).cwiseAbs().maxCoeff();
        ctx.closeM(Mat(Q.col(q)),Mat(S.col(q)),ss,1e-9,"stress and membrane vector"+nm);
        if(st!=0)
        {
            double f=st==1?1:sl;
            ctx.closeM(Mat(S.col(q)),Mat(f*S0.col(q)),ss,1e-9,(st==1?"taut stress":"slack stress")+nm); ctx.closeM(Mat(MA.col(q)),Mat(f*C0.col(q)),cs,1e-9,(st==1?"taut tangent":"slack tangent")+nm); ctx.closeM(Mat(Ca.col(q)),Mat(f*Ca0.col(q)),Ca0.col(q).cwiseAbs().maxCoeff(),1e-9,(st==1?"taut Cauchy":"slack Cauchy")+nm);
            ctx.check(std::isnan(Th(0,q))&&std::isnan(Ga(0,q)),"wrinkle angle and strain defined only when wrinkled"+nm); continue;
        }
        double th=Th(0,q),ga=Ga(0,q); double v[2]={std::cos(th),std::sin(th)}; Mat nn(3,1); nn<<v[0]*v[0],v[1]*v[1],2*v[0]*v[1];
        std::ostringstream db; db.precision(17); db<<"theta "<<th<<" gamma "<<ga<<" S "<<S0.col(q).transpose()<<" E "<<E0.col(q).transpose()<<" C "<<C0.col(q).transpose(); std::string dbg=db.str();
        ctx.check(ga>=0,"wrinkling strain non-negative"+nm,dbg);
        Mat W=S0.col(q)+C*nn*ga; double sc2=std::max(ss,W.cwiseAbs().maxCoeff());
        ctx.closeM(Mat(S.col(q)),W,sc2,1e-8,"wrinkled stress = stress + tangent * wrinkling strain"+nm);
        // no stress across the wrinkles
        ctx.close(S(0,q)*v[0]+S(2,q)*v[1],0,sc2,1e-6,"no normal stress across wrinkles"+nm,dbg); ctx.close(S(2,q)*v[0]+S(1,q)*v[1],0,sc2,1e-6,"no shear stress across wrinkles"+nm,dbg);
        if(lin){ M2 Go=sc.Go(j,k); R tr=Go(0,0)*S(0,q)+Go(1,1)*S(1,q)+2*Go(0,1)*S(2,q); ctx.check(tr>-1e-6*sc2,"tension along the wrinkles"+nm,"trace "+num((double)tr)+" theta "+num(th)+" gamma "+num(ga)+" S0 "+num(S0(0,q))+","+num(S0(1,q))+","+num(S0(2,q))+" S "+num(S(0,q))+","+num(S(1,q))+","+num(S(2,q))); }
        ctx.closeM(Mat(St.col(q)),Mat(E0.col(q)+ga*nn),std::max(es,ga),1e-8,"wrinkled strain"+nm);
        { int b; S0.col(q).cwiseAbs().maxCoeff(&b); double J=S0(b,q)/Ca0(b,q); ctx.closeM(Mat(Ca.col(q)),Mat(S.col(q)/J),sc2,1e-7,"wrinkled Cauchy stress"+nm); }
    }
}
// deformed metric of a point changed by homogeneous maps of the plate: S(E) by finite differences over the deformation
PROP(M11,tangent,400,"wrapped materials on a plate: the tangent in a wrinkled state is the derivative of the wrinkled stress with respect to strain; non-trivial: a wrinkled point")
{
    Combo c=tfCombo(ctx); bool lin=c.mat==0; Source&s=ctx.s; Scene sc; sc.dim=2; sc.m=matSpec(s,2,c.mat,c.comp,c.impl,0.02); sc.mp.addPatch(cartesian(2)); if(s.flag(60)){ double G[4]={1+s.sym(0.3),s.sym(0.5),s.sym(0.3),1+s.sym(0.3)}; applyT(sc.mp.patch(0).coefs(),G,2); } sc.def=sc.mp;
    double th=s.sym(1.6),l1=1+s.real(0.04,0.25,0.1),l2=1-s.real(0.0,0.2,0.1),cs=std::cos(th),sn=std::sin(th); double U[4]={l1*cs*cs+l2*sn*sn,(l1-l2)*cs*sn,(l1-l2)*cs*sn,l1*sn*sn+l2*cs*cs}; applyT(sc.def.patch(0).coefs(),U,2);
    sc.u=points(s,1); sc.z.setZero(1,1); sc.surfaces(); describe(ctx.desc,sc); ctx.desc<<" l=("<<l1<<","<<l2<<","<<th<<")"; ctx.require(admissible(sc,0.6,1.6));
    R Sp[2],Ep[2]; principal(sc,0,0,lin,Sp,Ep); R E=sc.m.E(sc.so[0].x); ctx.require(stateOf(2,Sp,Ep)==0&&Sp[0]<-0.005*E&&Ep[1]>0.01&&Ep[0]<-0.002); if(!lin) ctx.require(Sp[1]>0.01*E); ctx.nontrivial();
    auto mm=sc.m.make(sc.mp); MP t=tft(2,lin,mm.get());
    Mat D=evalZ<MaterialOutput::MatrixA>(t.get(),&sc.def,sc.z,sc.u), S0=evalZ<MaterialOutput::VectorN>(t.get(),&sc.def,sc.z,sc.u),C0=evalZ<MaterialOutput::MatrixA>(mm.get(),&sc.def,sc.z,sc.u);
    M2 Gd=sc.Gd(0,0),L=ref::chol(Gd); double h=1e-5*std::sqrt((double)ref::det(Gd)); double scl=C0.cwiseAbs().maxCoeff();
    auto at=[&](const M2&g){ // a deformation with the metric g: F with F^T F = g in parametric components
        gsMultiPatch<real_t> d=sc.mp; M2 Lg=ref::chol(g); Mat J; Mat up=sc.u; sc.mp.patch(0).jacobian_into(up,J); M2 Ji=ref::inv(M2{{{J(0,0),J(0,1)},{J(1,0),J(1,1)}}}); M2 F=ref::mul(ref::tr(Lg),Ji); double Fd[4]={(double)F(0,0),(double)F(0,1),(double)F(1,0),(double)F(1,1)}; applyT(d.patch(0).coefs(),Fd,2); return evalZ<MaterialOutput::VectorN>(t.get(),&d,sc.z,sc.u); };
    ctx.closeM(at(Gd),S0,std::max(1e-3*E,(R)S0.cwiseAbs().maxCoeff()),1e-7,"stress depends on the metric only "+cname(c,2));
    for(int b=0;b<3;b++){ M2 gp=Gd,gm=Gd; if(b<2){ gp(b,b)+=h; gm(b,b)-=h; } else { gp(0,1)+=h;gp(1,0)+=h;gm(0,1)-=h;gm(1,0)-=h; } Mat d=(at(gp)-at(gm))/(2*h)*(b<2?2:1); for(int a=0;a<3;a++) ctx.close(D(3*a+b,0),d(a,0),scl,2e-4,"tangent column "+std::to_string(b)+" "+cname(c,2)); }
}

PROP(M11,explicit,500,"wrapped materials with the state taken from a fixed deformed geometry: the state is that of the fixed geometry whatever the current one, stresses and tangents of that state at the current geometry; non-trivial: the states of the two geometries differ")
{
    int dim=dimOf(ctx.s); Combo c=tfCombo(ctx); bool lin=c.mat==0; Scene sc=tfScene(ctx,dim,c,4,2); Source&s=ctx.s; gsMultiPatch<real_t> fix=sc.def; int mode=s.range(0,2); if(mode==0) fix.patch(0).coefs()=sc.mp.patch(0).coefs()*s.real(1.02,1.2,1.1); else if(mode==1) fix.patch(0).coefs()=sc.mp.patch(0).coefs()*s.real(0.9,0.98,0.95); else fix.patch(0).coefs()*=s.real(0.95,1.05,1.02);
    Scene sf=sc; sf.def=fix; sf.surfaces(); ctx.require(admissible(sf,0.5,2)); auto mm=sc.m.make(sc.mp),un=sc.m.make(sc.mp); MP t=tft(dim,lin,mm.get()); double sl=s.flag(60)?0.2:0; t->options().setReal("SlackMultiplier",sl); t->options().setSwitch("Explicit",true);
    auto upd=[&](gsMaterialMatrixBase<real_t>*q,const gsMultiPatch<real_t>*g){ if(dim==3){ if(lin) dynamic_cast<gsMaterialMatrixTFT<3,real_t,true>*>(q)->updateDeformed(g); else dynamic_cast<gsMaterialMatrixTFT<3,real_t,false>*>(q)->updateDeformed(g); } else { if(lin) dynamic_cast<gsMaterialMatrixTFT<2,real_t,true>*>(q)->updateDeformed(g); else dynamic_cast<gsMaterialMatrixTFT<2,real_t,false>*>(q)->updateDeformed(g); } };
    upd(t.get(),&fix); bool cl=s.flag(25); MP cp; if(cl) cp=t->clone(); auto*m=cl?cp.get():t.get(); int n=sc.n(),nz=sc.z.rows(); std::string nm=" "+cname(c,dim);
    auto mi=sc.m.make(sc.mp); MP ti=tft(dim,lin,mi.get()); ti->options().setReal("SlackMultiplier",sl); // state of the current geometry
    Mat TFc=evalZ<MaterialOutput::TensionField>(ti.get(),&sc.def,sc.z,sc.u),TF=evalZ<MaterialOutput::TensionField>(m,&sc.def,sc.z,sc.u);
    Mat S=evalZ<MaterialOutput::VectorN>(m,&sc.def,sc.z,sc.u),MA=evalZ<MaterialOutput::MatrixA>(m,&sc.def,sc.z,sc.u),Q=evalZ<MaterialOutput::Stress>(m,&sc.def,sc.z,sc.u),St=evalZ<MaterialOutput::Strain>(m,&sc.def,sc.z,sc.u),P=evalZ<MaterialOutput::PStress>(m,&sc.def,sc.z,sc.u),Ca=evalZ<MaterialOutput::CauchyStressN>(m,&sc.def,sc.z,sc.u);
    Mat Si=evalZ<MaterialOutput::VectorN>(ti.get(),&sc.def,sc.z,sc.u),MAi=evalZ<MaterialOutput::MatrixA>(ti.get(),&sc.def,sc.z,sc.u),Cai=evalZ<MaterialOutput::CauchyStressN>(ti.get(),&sc.def,sc.z,sc.u),Sti=evalZ<MaterialOutput::Strain>(ti.get(),&sc.def,sc.z,sc.u),Pi=evalZ<MaterialOutput::PStress>(ti.get(),&sc.def,sc.z,sc.u);
    Mat S0=evalZ<MaterialOutput::Stress>(un.get(),&sc.def,sc.z,sc.u),C0=evalZ<MaterialOutput::MatrixA>(un.get(),&sc.def,sc.z,sc.u),E0=evalZ<MaterialOutput::Strain>(un.get(),&sc.def,sc.z,sc.u),P0=evalZ<MaterialOutput::PStress>(un.get(),&sc.def,sc.z,sc.u),Ca0=evalZ<MaterialOutput::CauchyStressN>(un.get(),&sc.def,sc.z,sc.u);
    for(int k=0;k<n;k++)for(int j=0;j<nz;j++)
    {
        int q=j*n+k; R Sp[2],Ep[2]; principal(sf,j,k,lin,Sp,Ep); R E=sc.m.E(sc.so[k].x); bool clear=true; for(int i=0;i<2;i++) clear&=std::abs(Sp[i])>1e-6*E&&std::abs(Ep[i])>1e-6; if(!clear) continue; int st=stateOf(2,Sp,Ep); ctx.close(TF(0,q),st,1,1e-12,"fixed state"+nm); ctx.nontrivial(TFc(0,q)!=st); ctx.label(std::to_string(st)+"/"+std::to_string((int)TFc(0,q)));
        double ss=std::max(1e-6*(double)E,S0.col(q).cwiseAbs().maxCoeff()),cs=C0.col(q).cwiseAbs().maxCoeff(),es=std::max(1e-6,E0.col(q).cwiseAbs().maxCoeff()),ps=std::max(1e-6*(double)E,P0.col(q).cwiseAbs().maxCoeff());
        if(st!=0){ double f=st==1?1:sl; ctx.closeM(Mat(S.col(q)),Mat(f*S0.col(q)),ss,1e-9,"fixed state stress"+nm); ctx.closeM(Mat(Q.col(q)),Mat(f*S0.col(q)),ss,1e-9,"fixed state stress output"+nm); ctx.closeM(Mat(MA.col(q)),Mat(f*C0.col(q)),cs,1e-9,"fixed state tangent"+nm); ctx.closeM(Mat(St.col(q)),Mat(f*E0.col(q)),es,1e-9,"fixed state strain"+nm); ctx.closeM(Mat(P.col(q)),Mat(f*P0.col(q)),ps,1e-8,"fixed state principal stress"+nm); ctx.closeM(Mat(Ca.col(q)),Mat(f*Ca0.col(q)),ss*2,1e-8,"fixed state Cauchy stress"+nm); }
        else if(TFc(0,q)==0){ double s2=std::max(ss,Si.col(q).cwiseAbs().maxCoeff()); ctx.closeM(Mat(S.col(q)),Mat(Si.col(q)),s2,1e-9,"wrinkled in both: stress"+nm); ctx.closeM(Mat(MA.col(q)),Mat(MAi.col(q)),std::max(cs,MAi.col(q).cwiseAbs().maxCoeff()),1e-9,"wrinkled in both: tangent"+nm); ctx.closeM(Mat(St.col(q)),Mat(Sti.col(q)),std::max(es,Sti.col(q).cwiseAbs().maxCoeff()),1e-9,"wrinkled in both: strain"+nm); ctx.closeM(Mat(Ca.col(q)),Mat(Cai.col(q)),s2*2,1e-9,"wrinkled in both: Cauchy stress"+nm); ctx.closeM(Mat(P.col(q)),Mat(Pi.col(q)),ps,1e-9,"wrinkled in both: principal stress"+nm); }
    }
    // back to the current geometry
    m->options().setSwitch("Explicit",false); Mat S2=evalZ<MaterialOutput::VectorN>(m,&sc.def,sc.z,sc.u); ctx.closeM(S2,Si,std::max(1e-6*sc.m.E.c0,Si.cwiseAbs().maxCoeff()),1e-9,"switched back"+nm);
}
