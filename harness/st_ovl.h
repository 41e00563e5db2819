/* strategies, shared by several harnesses */
 "", "z", "r{sep=h{pass=2}}", "r{sep=z}", "r{sep=h{pass=1}f{bal=0.05}}f{bal=0.1,move=10,pass=3}", "r{sep=m{vert=2,low=h,asc=f}}f", "m{vert=3,low=r{sep=h{pass=2}f},asc=f{bal=0.05}}", "m{vert=1,rat=0.9,low=r{sep=h}f,asc=f{bal=0}}",
  "e{strat=r{sep=h}}", "e{strat=r{sep=h{pass=2}f}f}", "m{vert=2,low=e{strat=r{sep=h}},asc=f}", "r{sep=g{pass=2}}f{bal=0.01,pass=2}", "(r{sep=h}|r{sep=g})f", "/(vert>3)?r{sep=h{pass=1}}:r{sep=z};", "zf", "r{sep=v}", "r{sep=b{bnd=f,org=h{pass=1},width=1}}" 
