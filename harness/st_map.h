/* strategies, shared by several harnesses */
  "",
  "r{sep=h{pass=3}f{bal=0.05,move=20}}", "r{job=t,map=t,poli=S,sep=m{vert=3,low=h{pass=2}f,asc=b{bnd=d{pass=5}f,org=f}}}", "r{job=u,map=u,poli=r,bal=0.1,sep=g{pass=2}f}", "r{job=t,map=u,poli=l,sep=h{pass=2}}", "r{job=u,map=t,poli=s,sep=g{pass=1}x}", "r{job=t,map=t,poli=L,sep=z}",
  "r{job=t,map=t,poli=S,sep=hb{bnd=d{pass=4},org=f,width=1}}", "r{job=t,map=t,poli=S,sep=h{pass=1}b{bnd=d{pass=3},org=f}}", "r{job=t,map=t,poli=S,sep=(h{pass=1}|g{pass=2})x}",
  "r{sep=h{pass=2}f}f{bal=0.1,move=10,pass=3}", "r{sep=h{pass=2}}x{bal=0.01}f", "r{sep=h{pass=2}}b{bnd=d{pass=4},org=f}", "r{sep=z}b{bnd=f{bal=0.05},org=f,width=1}", "r{sep=z}b{width=2,bnd=d{pass=2},org=r{sep=h}f}",
  "m{vert=3,rat=0.8,low=r{sep=h{pass=2}f},asc=f}", "m{vert=2,rat=1,type=s,low=r{sep=z},asc=b{bnd=d{pass=4}f{bal=0.05,move=8},org=f}}", "m{vert=1,type=h,low=r{sep=g},asc=x}",
    "/(vert>2)?r{sep=h{pass=2}f}:r{sep=g};", "(r{sep=z}|r{sep=h})", "/((load>3)&(edge<9))|(vert=2)?m{vert=2,low=r{sep=h},asc=f}:r{sep=h{pass=1}};",
  "c", "cf", "cx{bal=0.2}f{bal=0.2}", "m{vert=4,type=s,low=c,asc=f}", "(c|r{sep=z})", /* with old parts only */
