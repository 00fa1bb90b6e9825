// M01-M03: constitutive laws against the independent reference
#include "matgen.h"
using namespace gen;

PROP(M01,pointwise,1500,"random planar/surface B-spline or NURBS patch, random deformation, spatially varying thickness and moduli; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s);
    Scene sc=scene(ctx,dim,0,false,1,0.5);
    auto mm=sc.m.make(sc.mp);
    ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(dim==2?"2D":"3D");
    Mat MA=evalZ<MaterialOutput::MatrixA>(mm.get(),&sc.def,sc.z,sc.u);
    Mat ST=evalZ<MaterialOutput::Stress>(mm.get(),&sc.def,sc.z,sc.u);
    Mat SR=evalZ<MaterialOutput::Strain>(mm.get(),&sc.def,sc.z,sc.u);
    ctx.check(MA.rows()==9 && MA.cols()==sc.n()*sc.z.rows(),"MatrixA shape");
    ctx.check(ST.rows()==3 && ST.cols()==sc.n()*sc.z.rows(),"Stress shape");
    ctx.check(SR.rows()==3 && SR.cols()==sc.n()*sc.z.rows(),"Strain shape");
    for(int k=0;k<sc.n();k++) for(int j=0;j<sc.z.rows();j++)
    {
        int c=j*sc.n()+k; R C[3][3]; ref::linearC(sc.m.E(sc.so[k].x),sc.m.nu(sc.so[k].x),ref::inv(sc.so[k].A),C);
        M2 e=ref::lin(0.5L,sc.Gd(j,k),-0.5L,sc.Go(j,k)); R ev[3]={e(0,0),e(1,1),2*e(0,1)};
        R cm=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) cm=std::max(cm,std::abs(C[a][b]));
        R em=std::abs(sc.Go(j,k)(0,0))+std::abs(sc.Gd(j,k)(0,0))+std::abs(sc.Go(j,k)(1,1))+std::abs(sc.Gd(j,k)(1,1));
        for(int a=0;a<3;a++){
            ctx.close(SR(a,c),ev[a],em,1e-10,"strain");
            R s=0; for(int b=0;b<3;b++){ s+=C[a][b]*ev[b]; ctx.close(MA(3*b+a,c),C[a][b],cm,1e-9,"material matrix"); }
            ctx.close(ST(a,c),s,cm*em,1e-9,"stress"); }
    }
}
PROP(M01,resultants,1500,"as pointwise, thickness-integrated N, M, A, B, C, D; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s);
    Scene sc=scene(ctx,dim,0,false,1,0.5);
    auto mm=sc.m.make(sc.mp);
    ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(dim==2?"2D":"3D");
    Mat N=evalI<MaterialOutput::VectorN>(mm.get(),&sc.def,sc.u), M=evalI<MaterialOutput::VectorM>(mm.get(),&sc.def,sc.u);
    Mat A=evalI<MaterialOutput::MatrixA>(mm.get(),&sc.def,sc.u), B=evalI<MaterialOutput::MatrixB>(mm.get(),&sc.def,sc.u);
    Mat Cc=evalI<MaterialOutput::MatrixC>(mm.get(),&sc.def,sc.u), D=evalI<MaterialOutput::MatrixD>(mm.get(),&sc.def,sc.u);
    Mat rho=evalI<MaterialOutput::Density>(mm.get(),&sc.def,sc.u);
    for(int k=0;k<sc.n();k++)
    {
        R C[3][3]; ref::linearC(sc.m.E(sc.so[k].x),sc.m.nu(sc.so[k].x),ref::inv(sc.so[k].A),C); R t=sc.m.t(sc.so[k].x);
        M2 e=ref::lin(0.5L,sc.sd[k].A,-0.5L,sc.so[k].A), kp=ref::lin(1,sc.so[k].B,-1,sc.sd[k].B);
        R ev[3]={e(0,0),e(1,1),2*e(0,1)}, kv[3]={kp(0,0),kp(1,1),2*kp(0,1)};
        R cm=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) cm=std::max(cm,std::abs(C[a][b]));
        R em=sc.so[k].A(0,0)+sc.so[k].A(1,1)+sc.sd[k].A(0,0)+sc.sd[k].A(1,1);
        R km=1e-3; for(int a=0;a<2;a++)for(int b=0;b<2;b++) km+=std::abs(sc.so[k].B(a,b))+std::abs(sc.sd[k].B(a,b));
        for(int a=0;a<3;a++){
            R n=0,m=0; for(int b=0;b<3;b++){ n+=t*C[a][b]*ev[b]; m+=t*t*t/12*C[a][b]*kv[b];
                ctx.close(A(3*b+a,k),t*C[a][b],t*cm,1e-9,"A"); ctx.close(D(3*b+a,k),t*t*t/12*C[a][b],t*t*t/12*cm,1e-9,"D");
                ctx.close(B(3*b+a,k),0,t*t*cm,1e-9,"B"); ctx.close(Cc(3*b+a,k),0,t*t*cm,1e-9,"C"); }
            ctx.close(N(a,k),n,t*cm*em,1e-9,"N");
            if(dim==3) ctx.close(M(a,k),m,t*t*t/12*cm*km*10,1e-9,"M");
        }
        ctx.close(rho(0,k),t*sc.m.rho(sc.so[k].x),t*sc.m.rho(sc.so[k].x),1e-10,"density");
    }
}


PROP(M02,stress,3000,"every hyperelastic model x compressibility x implementation, large stretches 0.4..2.8; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=combo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.45);
    auto mm=sc.m.make(sc.mp); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim));
    Mat V=evalZ<MaterialOutput::VectorN>(mm.get(),&sc.def,sc.z,sc.u);
    Mat ST=evalZ<MaterialOutput::Stress>(mm.get(),&sc.def,sc.z,sc.u);
    ctx.check(V.rows()==3 && V.cols()==sc.n()*sc.z.rows(),"vector shape");
    for(int k=0;k<sc.n();k++) for(int j=0;j<sc.z.rows();j++)
    {
        int q=j*sc.n()+k; ref::Law law=sc.m.law(sc.so[k].x); M2 Go=sc.Go(j,k),Gd=sc.Gd(j,k);
        R l3; M2 S=ref::stress(law,Go,Gd,&l3); ctx.require(l3>0);
        M2 gi=ref::inv(Go); R sc_=law.mu()/(1-2*std::min((R)0.45L,law.nu))*(gi(0,0)+gi(1,1))*10;
        auto v=ref::voigt(S); for(int a=0;a<3;a++){ ctx.close(V(a,q),v[a],sc_+std::abs(v[a]),1e-7,"stress "+cname(c,dim)); ctx.close(ST(a,q),v[a],sc_+std::abs(v[a]),1e-7,"stress output "+cname(c,dim)); }
    }
}
PROP(M03,tangent,2500,"as stress; tangent against a high-order difference of the reference stress, and symmetry; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=combo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.45);
    auto mm=sc.m.make(sc.mp); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim));
    Mat MA=evalZ<MaterialOutput::MatrixA>(mm.get(),&sc.def,sc.z,sc.u);
    ctx.check(MA.rows()==9 && MA.cols()==sc.n()*sc.z.rows(),"matrix shape");
    for(int k=0;k<sc.n();k++) for(int j=0;j<sc.z.rows();j++)
    {
        int q=j*sc.n()+k; ref::Law law=sc.m.law(sc.so[k].x); M2 Go=sc.Go(j,k),Gd=sc.Gd(j,k);
        R D[3][3]; bool ok=true; ref::tangentFD([&](const M2&g){ R l3; M2 s=ref::stress(law,Go,g,&l3); ok=ok&&l3>0; return s; },Gd,D); ctx.require(ok);
        R dm=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) dm=std::max(dm,std::abs(D[a][b]));
        for(int a=0;a<3;a++)for(int b=0;b<3;b++){ ctx.close(MA(3*b+a,q),D[a][b],dm,2e-6,"tangent "+cname(c,dim));
            ctx.close(MA(3*b+a,q),MA(3*a+b,q),dm,1e-8,"tangent symmetry "+cname(c,dim)); }
    }
}
PROP(M01,state,200,"after an evaluation of the stiffness, the law of the last visited point applied to any strain, and its matrix; non-trivial: a skew or curved parametrisation")
{
    Source&s=ctx.s; int dim=dimOf(s); Scene sc=scene(ctx,dim,0,false,1,0.3,0.1,3,2); auto m=sc.m.make(sc.mp); m->setDeformed(&sc.def); int n=sc.n(),nz=sc.z.rows(); Mat A=m->eval3D_matrix(0,sc.u,sc.z,MaterialOutput::MatrixA); ctx.nontrivial(std::abs(sc.so[n-1].A(0,1))>1e-6); Mat last=A.reshapeCol((nz-1)*n+n-1,3,3); double c=last.cwiseAbs().maxCoeff();
    Mat E(2,2); E<<s.sym(0.3),s.sym(0.3),0,s.sym(0.3); E(1,0)=E(0,1); Mat C=m->C(E); ctx.closeM(C,last,c,1e-11,"matrix of the last point"); Mat S=m->S(E); Mat e(3,1); e<<E(0,0),E(1,1),2*E(0,1); Mat v=last*e; ctx.check(S.rows()==2&&S.cols()==2,"shape"); ctx.close(S(0,0),v(0,0),c,1e-11,"stress of a given strain"); ctx.close(S(1,1),v(1,0),c,1e-11,"stress of a given strain"); ctx.close(S(0,1),v(2,0),c,1e-11,"stress of a given strain"); ctx.close(S(1,0),v(2,0),c,1e-11,"stress of a given strain");
}
