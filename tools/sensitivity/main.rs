use sens::*;
fn qs(s:&State)->Vec<(f64,f64)>{ vec![(s.mm.v,s.mm.s),(s.z.v,s.z.s),(s.p.v,s.p.s),(s.dp_dd.v,s.dp_dd.s),(s.d2p_dd2.v,s.d2p_dd2.s),(s.dp_dt.v,s.dp_dt.s),(s.u.v,s.u.s),(s.h.v,s.h.s),(s.s.v,s.s.s),(s.g.v,s.g.s),(s.cv.v,s.cv.s)] }
fn main(){
  let rel:f64=std::env::args().nth(1).map(|s|s.parse().unwrap()).unwrap_or(1e-6);
  let ts=[60.0,150.0,300.0,700.0,2000.0]; let ds=[1e-3,2.0,8.0,14.0,22.0];
  let mut comps:Vec<[f64;21]>=vec![];
  for i in 0..21{let mut x=[0.0;21];x[i]=1.0;comps.push(x);}
  for i in 0..21{for j in i+1..21{let mut x=[0.0;21];x[i]=0.2;x[j]=0.8;comps.push(x);}}
  for (k,(tabs,f)) in [(tab_detail::all(), detail as fn(&[f64;21],f64,f64)->State),(tab_gerg::all(),gerg as _)].into_iter().enumerate(){
    let eval=|x:&[f64;21]|->Vec<Vec<(f64,f64)>>{ts.iter().flat_map(|t|ds.iter().map(move|d|(t,d))).map(|(t,d)|qs(&f(x,*t,*d))).collect()};
    let base:Vec<_>=comps.iter().map(&eval).collect();
    for (n,p,a,b) in tabs { let mut un=vec![]; let mut tot=0; let mut worst=f64::INFINITY; let mut ww=(0,0);
      for i in 0..a*b { unsafe{ let q=p.add(i); let v=*q; if v==0.0{continue;} tot+=1; *q=v*(1.0+rel);
        // first pures & the pairs where relevant
        let mut best=0f64;
        for (ci,x) in comps.iter().enumerate(){ 
          // relevance
          let (r,c)=(i/b,i%b); if a==21&&b==21 && !(x[r]>0.0&&x[c]>0.0){continue;} if a==21&&b!=21&&!(x[r]>0.0){continue;}
          for (g,h) in eval(x).iter().zip(&base[ci]) { for (y,z) in g.iter().zip(h){ let e=(y.0-z.0).abs()/(z.1+1e-290); if e>best{best=e;} } }
          if best>1e-9 {break;}
        }
        *q=v; if best<=1e-12 {un.push(i);} else if best<worst{worst=best;ww=(i/b,i%b);} } }
      println!("{} {n}: {tot} entries, {} undetected, weakest detected {worst:e} at {ww:?} {:?}",["detail","gerg"][k],un.len(),un.iter().take(60).map(|i|(i/b,i%b)).collect::<Vec<_>>());
    }
  }
}
