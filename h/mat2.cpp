// M05 stretches, M06 thickness integrals, M14 derived stress/strain measures
#include "matgen.h"
using namespace gen;

// contravariant/covariant base vectors of the undeformed shell at height zeta
static void base(const ref::Surf&s,R zeta,V3 g[2],V3 gc[2])
{
    g[0]=s.a1+zeta*s.n1; g[1]=s.a2+zeta*s.n2; M2 G=M2{{{ref::dot(g[0],g[0]),ref::dot(g[0],g[1])},{ref::dot(g[0],g[1]),ref::dot(g[1],g[1])}}}; M2 Gi=ref::inv(G);
    for(int i=0;i<2;i++) gc[i]=Gi(i,0)*g[0]+Gi(i,1)*g[1];
}
static void principal(const M2&Go,const M2&Gd,R w[2]){ M2 L=ref::chol(Go),Li=ref::inv(L),C=ref::mul(ref::mul(Li,Gd),ref::tr(Li)); M2 q; ref::eig2(C,w,q); }
// eigenvalues of S^{ab} g_a g_b with metric G
static void principalS(const M2&S,const M2&G,R w[2]){ M2 L=ref::chol(G); M2 H=ref::mul(ref::mul(ref::tr(L),S),L); M2 q; ref::eig2(H,w,q); }

PROP(M05,stretch,2500,"linear and every hyperelastic law; principal stretches, directions and deformation tensor at several heights; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.45);
    auto mm=sc.m.make(sc.mp); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim));
    Mat L=evalZ<MaterialOutput::Stretch>(mm.get(),&sc.def,sc.z,sc.u);
    Mat D=evalZ<MaterialOutput::StretchDir>(mm.get(),&sc.def,sc.z,sc.u);
    Mat F=evalZ<MaterialOutput::Deformation>(mm.get(),&sc.def,sc.z,sc.u);
    Mat TC=evalZ<MaterialOutput::StretchTransform>(mm.get(),&sc.def,sc.z,sc.u),TS=evalZ<MaterialOutput::PStressTransform>(mm.get(),&sc.def,sc.z,sc.u); ctx.check(TC.rows()==9&&TC.cols()==sc.n()*sc.z.rows()&&TS.rows()==9&&TS.cols()==TC.cols(),"shape");
    if(ctx.s.flag(40)){ TC=evalZ<MaterialOutput::Spec2ConTransform>(mm.get(),&sc.def,sc.z,sc.u); TS=evalZ<MaterialOutput::Spec2CovTransform>(mm.get(),&sc.def,sc.z,sc.u); ctx.check(TC.rows()==9&&TC.cols()==sc.n()*sc.z.rows()&&TS.rows()==9&&TS.cols()==TC.cols(),"shape"); }
    Mat J=mm->eval3D_detF(0,sc.u,sc.z,MaterialOutput::Generic);
    int nc=sc.n()*sc.z.rows();
    ctx.check(L.rows()==3&&L.cols()==nc&&D.rows()==9&&D.cols()==nc&&F.rows()==9&&F.cols()==nc,"shape");
    for(int k=0;k<sc.n();k++) for(int j=0;j<sc.z.rows();j++)
    {
        int q=j*sc.n()+k; M2 Go=sc.Go(j,k),Gd=sc.Gd(j,k); R w[2]; principal(Go,Gd,w); R l1=std::sqrt(w[0]),l2=std::sqrt(w[1]);
        R l3=1/(l1*l2); if(c.comp){ l3=sc.m.law(sc.so[k].x).lam3(l1,l2); ctx.require(l3>0); }
        std::string tag=cname(c,dim);
        ctx.close(L(0,q),l1,l1,1e-8,"stretch 1 "+tag); ctx.close(L(1,q),l2,l2,1e-8,"stretch 2 "+tag); ctx.close(L(2,q),l3,l3,1e-7,"thickness stretch "+tag);
        if(c.mat!=0) ctx.close(J(0,q),l1*l2*l3,1,1e-7,"volume ratio "+tag);
        R gm=Gd(0,0)+Gd(1,1); for(int a=0;a<2;a++)for(int b=0;b<2;b++) ctx.close(F(a+3*b,q),Gd(a,b),gm,1e-10,"deformation tensor "+tag);
        ctx.close(F(8,q),1/(w[0]*w[1]),1/(w[0]*w[1]),1e-8,"deformation tensor 33 "+tag);
        ctx.check(F(2,q)==0&&F(5,q)==0&&F(6,q)==0&&F(7,q)==0,"deformation tensor off-diagonal "+tag);
        // directions: orthonormal, eigenvectors of the pulled-back tensor, third one the normal
        V3 g[2],gc[2]; base(sc.so[k],sc.zeta(j,k),g,gc); V3 d[3]; for(int a=0;a<3;a++) for(int i=0;i<3;i++) d[a][i]=D(3*a+i,q);
        for(int a=0;a<3;a++)for(int b=0;b<3;b++) ctx.close(ref::dot(d[a],d[b]),a==b,1,1e-8,"directions orthonormal "+tag);
        ctx.close(std::abs(ref::dot(d[2],sc.so[k].n)),1,1,1e-9,"third direction is the normal "+tag);
        R ll[2]={l1,l2};
        for(int a=0;a<2;a++){ V3 Bd=V3{{0,0,0}}; for(int i=0;i<2;i++)for(int jj=0;jj<2;jj++) Bd=Bd+(Gd(i,jj)*ref::dot(gc[jj],d[a]))*gc[i];
            V3 r=Bd-(ll[a]*ll[a])*d[a]; ctx.close(std::sqrt(ref::dot(r,r)),0,w[1],1e-7,"direction is an eigenvector "+tag); }
        // transformations to the principal axes: of covariant components (deformation tensor) and of contravariant components (inverse metric: the identity)
        R C3[3]={Gd(0,0),Gd(1,1),Gd(0,1)},want[3]={w[0],w[1],0}; M2 Gi=ref::inv(Go); R I3[3]={Gi(0,0),Gi(1,1),Gi(0,1)}; M2 X=ref::mul(ref::mul(Gi,Gd),Gi); R X3[3]={X(0,0),X(1,1),X(0,1)};
        for(int i=0;i<3;i++){ R a=0,b=0,x=0,sa=0,sb=0,sx=0; for(int e=0;e<3;e++){ a+=TC(3*e+i,q)*C3[e]; sa+=std::abs(TC(3*e+i,q)*C3[e]); b+=TS(3*e+i,q)*I3[e]; sb+=std::abs(TS(3*e+i,q)*I3[e]); x+=TS(3*e+i,q)*X3[e]; sx+=std::abs(TS(3*e+i,q)*X3[e]); } ctx.close(a,want[i],sa+w[1],1e-7,"deformation tensor in principal axes "+tag); ctx.close(b,i<2,sb+1,1e-7,"identity in principal axes "+tag); ctx.close(x,want[i],sx+w[1],1e-7,"contravariant components in principal axes "+tag); }
    }
}

// reference pointwise stress at height zeta
static M2 refStress(const Scene&sc,const ref::Law&law,int k,R zeta,bool&ok){ R l3; M2 s=ref::stress(law,ref::metric(sc.so[k],zeta),ref::metric(sc.sd[k],zeta),&l3); ok=ok&&l3>0; return s; }

PROP(M06,resultants,1200,"every hyperelastic law; N, M, A, B, C, D against Gauss quadrature of the reference stress and tangent through the thickness; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=combo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4,0.12,3,1);
    auto mm=sc.m.make(sc.mp); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim));
    int ng=4; if(ctx.s.flag(40)) { ng=ctx.s.range(1,6); mm->options().setInt("NumGauss",ng); } ctx.desc<<" ng="<<ng;
    Mat N=evalI<MaterialOutput::VectorN>(mm.get(),&sc.def,sc.u), M=evalI<MaterialOutput::VectorM>(mm.get(),&sc.def,sc.u);
    Mat A=evalI<MaterialOutput::MatrixA>(mm.get(),&sc.def,sc.u), B=evalI<MaterialOutput::MatrixB>(mm.get(),&sc.def,sc.u);
    Mat C=evalI<MaterialOutput::MatrixC>(mm.get(),&sc.def,sc.u), D=evalI<MaterialOutput::MatrixD>(mm.get(),&sc.def,sc.u);
    Mat rho=evalI<MaterialOutput::Density>(mm.get(),&sc.def,sc.u), CN=evalI<MaterialOutput::CauchyVectorN>(mm.get(),&sc.def,sc.u), CM=evalI<MaterialOutput::CauchyVectorM>(mm.get(),&sc.def,sc.u);
    std::vector<R> x,w; ref::gauss(ng,x,w); std::string tag=cname(c,dim);
    for(int k=0;k<sc.n();k++)
    {
        R t=sc.m.t(sc.so[k].x); ref::Law law=sc.m.law(sc.so[k].x);
        R n[3]={0},m[3]={0},cn[3]={0},cm[3]={0},a[3][3]={{0}},b[3][3]={{0}},d[3][3]={{0}}; bool ok=true;
        for(int i=0;i<ng;i++)
        {
            R ze=x[i]*t/2, wt=w[i]*t/2; auto s=ref::voigt(refStress(sc,law,k,ze,ok)); R T[3][3]; M2 Go=ref::metric(sc.so[k],ze),Gd=ref::metric(sc.sd[k],ze);
            ref::tangentFD([&](const M2&g){ R l3; M2 ss=ref::stress(law,Go,g,&l3); ok=ok&&l3>0; return ss; },Gd,T);
            R J=1; if(c.comp){ R pw[2]; principal(Go,Gd,pw); R l1=std::sqrt(pw[0]),l2=std::sqrt(pw[1]); J=l1*l2*law.lam3(l1,l2); }
            for(int p=0;p<3;p++){ n[p]+=wt*s[p]; m[p]+=wt*ze*s[p]; cn[p]+=wt*s[p]/J; cm[p]+=wt*ze*s[p]/J; for(int q=0;q<3;q++){ a[p][q]+=wt*T[p][q]; b[p][q]+=wt*ze*T[p][q]; d[p][q]+=wt*ze*ze*T[p][q]; } }
        }
        ctx.require(ok);
        R am=0; for(int p=0;p<3;p++)for(int q=0;q<3;q++) am=std::max(am,std::abs(a[p][q]));
        R e=sc.sd[k].A(0,0)+sc.sd[k].A(1,1)+sc.so[k].A(0,0)+sc.so[k].A(1,1);
        for(int p=0;p<3;p++){
            ctx.close(N(p,k),n[p],am*e,1e-8,"N "+tag); ctx.close(M(p,k),m[p],am*e*t,1e-8,"M "+tag);
            ctx.close(CN(p,k),cn[p],am*e,1e-7,"Cauchy N "+tag); ctx.close(CM(p,k),cm[p],am*e*t,1e-7,"Cauchy M "+tag);
            for(int q=0;q<3;q++){ int i=3*q+p;
                ctx.close(A(i,k),a[p][q],am,3e-6,"A "+tag); ctx.close(B(i,k),b[p][q],am*t,3e-6,"B "+tag);
                ctx.close(C(i,k),b[p][q],am*t,3e-6,"C "+tag); ctx.close(D(i,k),d[p][q],am*t*t,3e-6,"D "+tag); } }
        ctx.close(rho(0,k),t*sc.m.rho(sc.so[k].x),t*sc.m.rho(sc.so[k].x),1e-10,"density");
    }
}
PROP(M14,measures,2500,"linear and every hyperelastic law; Cauchy stress, principal PK2 and Cauchy stresses, principal strains; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4);
    auto mm=sc.m.make(sc.mp); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim));
    Mat CS=mm->eval3D_CauchyStress(0,(mm->setDeformed(&sc.def),sc.u),sc.z,MaterialOutput::Generic);
    Mat CN=evalZ<MaterialOutput::CauchyStressN>(mm.get(),&sc.def,sc.z,sc.u), PS=evalZ<MaterialOutput::PStress>(mm.get(),&sc.def,sc.z,sc.u);
    Mat PN=evalZ<MaterialOutput::PStressN>(mm.get(),&sc.def,sc.z,sc.u);
    Mat PC=evalZ<MaterialOutput::PCauchyStressN>(mm.get(),&sc.def,sc.z,sc.u), PE=evalZ<MaterialOutput::PStrainN>(mm.get(),&sc.def,sc.z,sc.u);
    Mat PD=evalZ<MaterialOutput::PStressDir>(mm.get(),&sc.def,sc.z,sc.u);
    Mat SN_=evalZ<MaterialOutput::StressN>(mm.get(),&sc.def,sc.z,sc.u), SM_=evalZ<MaterialOutput::StressM>(mm.get(),&sc.def,sc.z,sc.u), CM=evalZ<MaterialOutput::CauchyStressM>(mm.get(),&sc.def,sc.z,sc.u), PM=evalZ<MaterialOutput::PStressM>(mm.get(),&sc.def,sc.z,sc.u), PCM=evalZ<MaterialOutput::PCauchyStressM>(mm.get(),&sc.def,sc.z,sc.u);
    Mat TV=evalZ<MaterialOutput::Cov2CartTransform>(mm.get(),&sc.def,sc.z,sc.u), TK=evalZ<MaterialOutput::Con2CartTransform>(mm.get(),&sc.def,sc.z,sc.u);
    Mat TH=evalZ<MaterialOutput::Thickness>(mm.get(),&sc.def,sc.z,sc.u), PR=evalZ<MaterialOutput::Parameters>(mm.get(),&sc.def,sc.z,sc.u);
    R X[3]={ctx.s.sym(1),ctx.s.sym(1),ctx.s.sym(1)};
    int nc=sc.n()*sc.z.rows(); std::string tag=cname(c,dim);
    ctx.check(SN_.rows()==3&&SN_.cols()==nc&&SM_.rows()==3&&SM_.cols()==nc&&CM.rows()==3&&CM.cols()==nc&&PM.rows()==2&&PM.cols()==nc&&PCM.rows()==2&&PCM.cols()==nc&&TV.rows()==9&&TV.cols()==nc&&TK.rows()==9&&TK.cols()==nc&&TH.cols()==sc.n()&&PR.cols()==sc.n()&&PR.rows()==(int)sc.m.pars().size(),"shapes of the parts "+tag);
    for(int k=0;k<sc.n();k++){ ctx.close(TH(0,k),sc.m.t(sc.so[k].x),sc.m.t.c0,1e-12,"thickness "+tag); ctx.close(PR(0,k),sc.m.E(sc.so[k].x),sc.m.E.c0,1e-12,"modulus "+tag); ctx.close(PR(1,k),sc.m.nu(sc.so[k].x),1,1e-12,"Poisson ratio "+tag); if(c.mat==3) ctx.close(PR(2,k),sc.m.ratio(sc.so[k].x),sc.m.ratio.c0,1e-12,"ratio "+tag); for(size_t i=0;i<sc.m.mu.size();i++){ ctx.close(PR(2+2*i,k),sc.m.mu[i].c0,std::abs(sc.m.mu[i].c0),1e-12,"mu "+tag); ctx.close(PR(3+2*i,k),sc.m.al[i].c0,std::abs(sc.m.al[i].c0),1e-12,"alpha "+tag); } }
    ctx.check(CS.rows()==3&&CS.cols()==nc&&PS.rows()==2&&PS.cols()==nc&&PC.rows()==2&&PC.cols()==nc&&PE.cols()==nc&&PE.rows()>=2,"shape "+tag);
    for(int k=0;k<sc.n();k++) for(int j=0;j<sc.z.rows();j++)
    {
        int q=j*sc.n()+k; M2 Go=sc.Go(j,k),Gd=sc.Gd(j,k); R w[2]; principal(Go,Gd,w); R J0=std::sqrt(w[0]*w[1]); 
        M2 S,SN,SM; R J,scale,sm; 
        if(c.mat==0)
        {
            R C[3][3]; ref::linearC(sc.m.E(sc.so[k].x),sc.m.nu(sc.so[k].x),ref::inv(sc.so[k].A),C);
            auto ap=[&](const M2&e){ R ev[3]={e(0,0),e(1,1),2*e(0,1)},s[3]={0,0,0}; for(int a=0;a<3;a++)for(int b=0;b<3;b++) s[a]+=C[a][b]*ev[b]; return M2{{{s[0],s[2]},{s[2],s[1]}}}; };
            S=ap(ref::lin(0.5L,Gd,-0.5L,Go)); SN=ap(ref::lin(0.5L,sc.sd[k].A,-0.5L,sc.so[k].A)); SM=ap(ref::lin(1,sc.so[k].B,-1,sc.sd[k].B)); J=J0;
            scale=0; for(int a=0;a<3;a++)for(int b=0;b<3;b++) scale=std::max(scale,std::abs(C[a][b])); sm=scale; { R b=1e-3; for(int a=0;a<2;a++)for(int e=0;e<2;e++) b+=std::abs(sc.so[k].B(a,e))+std::abs(sc.sd[k].B(a,e)); sm*=10*b; } scale*=Gd(0,0)+Gd(1,1)+Go(0,0)+Go(1,1);
        }
        else
        {
            ref::Law law=sc.m.law(sc.so[k].x); R l3; S=ref::stress(law,Go,Gd,&l3); ctx.require(l3>0); SN=SM=S; J= c.comp? J0*l3 : 1; M2 gi=ref::inv(Go); scale=law.mu()/(1-2*std::min((R)0.45L,law.nu))*(gi(0,0)+gi(1,1))*10; for(auto v:ref::voigt(S)) scale+=std::abs(v); sm=scale;
        }
        auto v=ref::voigt(S),vn=ref::voigt(SN); for(int a=0;a<3;a++){ ctx.close(CS(a,q),v[a]/J,scale,1e-7,"Cauchy stress "+tag); ctx.close(CN(a,q),vn[a]/J,scale,1e-7,"Cauchy stress N "+tag); ctx.close(SN_(a,q),vn[a],scale,1e-7,"stress N "+tag); }
        auto vm=ref::voigt(SM); for(int a=0;a<3;a++){ ctx.close(SM_(a,q),vm[a],sm,1e-7,"stress M "+tag); ctx.close(CM(a,q),vm[a]/J,sm,1e-7,"Cauchy stress M "+tag); }
        R ps[2],pn[2],pc[2]; principalS(S,Go,ps); principalS(SN,Go,pn); principalS(SN,Gd,pc); R gs=(Go(0,0)+Go(1,1)+Gd(0,0)+Gd(1,1))*scale;
        for(int a=0;a<2;a++){ ctx.close(PS(a,q),ps[a],gs,1e-7,"principal stress "+tag); ctx.close(PN(a,q),pn[a],gs,1e-7,"principal stress N "+tag); ctx.close(PC(a,q),pc[a]/J,gs,1e-7,"principal Cauchy stress "+tag); }
        { R pm[2],pk[2]; principalS(SM,Go,pm); principalS(SM,Gd,pk); R g2=(Go(0,0)+Go(1,1)+Gd(0,0)+Gd(1,1))*sm; for(int a=0;a<2;a++){ ctx.close(PM(a,q),pm[a],g2,1e-7,"principal stress M "+tag); ctx.close(PCM(a,q),pk[a]/J,g2,1e-7,"principal Cauchy stress M "+tag); } }
        // components of a plane tensor on the covariant and contravariant base vectors of the undeformed shell
        { V3 b[2],bc[2]; base(sc.so[k],sc.zeta(j,k),b,bc); for(int w_=0;w_<2;w_++){ const Mat&T=w_?TK:TV; V3*B=w_?bc:b; int I[3][2]={{0,0},{1,1},{0,1}}; for(int i=0;i<3;i++){ V3&p=B[I[i][0]],&r=B[I[i][1]]; R want=p[0]*r[0]*X[0]+p[1]*r[1]*X[1]+(p[0]*r[1]+p[1]*r[0])*X[2],got=0; for(int e=0;e<3;e++) got+=T(3*e+i,q)*X[e]; ctx.close(got,want,ref::dot(p,p)+ref::dot(r,r),1e-9,(w_?"contravariant components ":"covariant components ")+tag); } } }
        M2 E=ref::lin(0.5L,Gd,-0.5L,Go); M2 Gi=ref::inv(Go); R pe[2]; M2 L=ref::chol(Go),Li=ref::inv(L); M2 H=ref::mul(ref::mul(Li,E),ref::tr(Li)),qq; ref::eig2(H,pe,qq);
        for(int a=0;a<2;a++) ctx.close(PE(a,q),pe[a],1+w[1],1e-8,"principal strain "+tag);
        // principal directions reproduce the tensor
        ctx.check(PD.rows()>=6&&PD.cols()==nc,"principal direction shape "+tag);
        V3 g[2],gc[2]; base(sc.so[k],sc.zeta(j,k),g,gc); V3 d[2]; for(int a=0;a<2;a++)for(int i=0;i<3;i++) d[a][i]=PD(3*a+i,q);
        if(std::abs(ps[0])>1e-6*gs && std::abs(ps[1])>1e-6*gs)   // a zero in-plane principal stress leaves the direction undefined
        for(int a=0;a<2;a++)for(int b=0;b<2;b++){ R s=0; for(int e=0;e<2;e++) s+=ps[e]*ref::dot(d[e],gc[a])*ref::dot(d[e],gc[b]); ctx.close(s,S(a,b),scale,1e-6,"principal directions "+tag); }
    }
}
PROP(M06,principal,800,"linear law: integrated principal membrane and bending stresses are the principal values of the integrated membrane force and moment tensors; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Scene sc=scene(ctx,dim,0,false,1,0.4,0.12,3,1); auto mm=sc.m.make(sc.mp); ctx.nontrivial(maxStrain(sc)>1e-6);
    Mat N=evalI<MaterialOutput::VectorN>(mm.get(),&sc.def,sc.u), M=evalI<MaterialOutput::VectorM>(mm.get(),&sc.def,sc.u), PN=evalI<MaterialOutput::PStressN>(mm.get(),&sc.def,sc.u), PM=evalI<MaterialOutput::PStressM>(mm.get(),&sc.def,sc.u);
    ctx.check(PN.rows()>=2&&PN.cols()==sc.n()&&PM.rows()>=2&&PM.cols()==sc.n(),"shape");
    Mat CN=evalI<MaterialOutput::CauchyVectorN>(mm.get(),&sc.def,sc.u), CM=evalI<MaterialOutput::CauchyVectorM>(mm.get(),&sc.def,sc.u);
    for(int k=0;k<sc.n();k++)
    {
        M2 L=ref::chol(sc.so[k].A),Lt=ref::tr(L),q; double t=sc.m.t.c0;
        double J=std::sqrt((double)(ref::det(sc.sd[k].A)/ref::det(sc.so[k].A))),fs=0,ms=0; for(int a=0;a<3;a++){ fs=std::max(fs,std::abs(N(a,k))); ms=std::max(ms,std::abs(M(a,k))); } fs=std::max(fs,1e-6*sc.m.E.c0*t); ms=std::max(ms,1e-6*sc.m.E.c0*t*t*t);
        for(int a=0;a<3;a++){ ctx.close(CN(a,k),N(a,k)/J,fs,1e-8,"Cauchy membrane force"); ctx.close(CM(a,k),M(a,k)/J,ms,1e-8,"Cauchy moment"); }
        for(int w=0;w<2;w++){ const Mat&V=w?M:N; const Mat&P=w?PM:PN; M2 S{{{V(0,k),V(2,k)},{V(2,k),V(1,k)}}}; R e[2]; ref::eig2(ref::mul(ref::mul(Lt,S),L),e,q); double a=std::min(P(0,k),P(1,k)),b=std::max(P(0,k),P(1,k)); double s=std::max({std::abs((double)e[0]),std::abs((double)e[1]),1e-6*sc.m.E.c0*(w?t*t*t:t)}); ctx.close(a,e[0],s,1e-6,w?"principal moment":"principal force"); ctx.close(b,e[1],s,1e-6,w?"principal moment":"principal force"); }
    }
}
PROP(M02,given,600,"every law: stress and stiffness for a given in-plane deformation tensor at a point and height, whatever deformed geometry the material holds, against the geometry that deforms like that; linear law on the mid-surface; non-trivial: strain > 1e-6")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.3,0.1,3,2); if(c.mat==0) sc.z.setZero(); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim)); auto a=sc.m.make(sc.mp),b=sc.m.make(sc.mp); a->setDeformed(&sc.def); int how=s.range(0,2); gsMultiPatch<real_t> o=sc.mp; if(how) o.patch(0).coefs()*=1.03; b->setDeformed(how==2?&sc.def:&o); if(s.flag(30)) b->eval3D_stress(0,sc.u,sc.z,MaterialOutput::VectorN);
    int n=sc.n(); Mat S=a->eval3D_stress(0,sc.u,sc.z,MaterialOutput::VectorN),C=a->eval3D_matrix(0,sc.u,sc.z,MaterialOutput::MatrixA);
    for(int k=0;k<n;k++)for(int j=0;j<sc.z.rows();j++){ M2 G=sc.Gd(j,k); Mat g(3,1); g<<(double)G(0,0),(double)G(1,1),(double)G(0,1); gsVector<real_t> u=sc.u.col(k); Mat s1=b->eval3D_vector_C(g,0,u,sc.z(j,k),MaterialOutput::VectorN),c1=b->eval3D_matrix_C(g,0,u,sc.z(j,k),MaterialOutput::MatrixA); int q=j*n+k; double cs=C.col(q).cwiseAbs().maxCoeff(); ctx.closeM(s1,Mat(S.col(q)),cs,1e-8,"stress of a given deformation "+cname(c,dim)); ctx.closeM(c1,Mat(C.col(q)),cs,1e-7,"stiffness of a given deformation "+cname(c,dim)); }
}
