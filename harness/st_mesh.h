/* strategies, shared by several harnesses */
  "", "s", "g", "g{pass=1}", "b{strat=s,cmin=2}", "b{strat=g,cmin=1}",
  "f{cmin=0,cmax=100000,frat=0.0}", "f{cmin=2,cmax=3,frat=0.5}", "d{cmin=0,cmax=100000,frat=0.0}", "d{cmin=2,cmax=3,frat=0.5}",
  "v{strat=s}", "v{strat=f{cmin=0,cmax=100,frat=0}}", "v{strat=n{sep=h{pass=3},ole=d{cmin=0,cmax=100,frat=0},ose=g}}",
  "c{rat=1,cpr=s,unc=s}", "c{rat=1,cpr=n{sep=h{pass=2},ole=s,ose=s},unc=g}", "c{rat=0.7,cpr=f{cmin=0,cmax=100,frat=0},unc=v{strat=s}}", "c{rat=1,cpr=g,unc=s}",
  "n{sep=z,ole=s,ose=s}", "n{sep=h{pass=3},ole=s,ose=s}", "n{sep=h{pass=1}f{pass=3,move=10,bal=0.1},ole=d{cmin=0,cmax=100,frat=0},ose=s}", "n{sep=h{pass=2}f,ole=f{cmin=0,cmax=100,frat=0},ose=g}",
  "n{sep=v{strat=h{pass=2}f},ole=v{strat=f{cmin=0,cmax=100,frat=0}},ose=g}", "n{sep=v{strat=m{vert=2,low=h,asc=f}},ole=s,ose=v{strat=s}}",
  "n{sep=m{vnod=2,low=h{pass=2},asc=f,type=n},ole=s,ose=s}", "n{sep=m{vnod=1,low=h{pass=2}f,asc=f,rat=0.9},ole=s,ose=g}", "n{sep=m{vnod=3,low=z,asc=h{pass=2}f,type=n},ole=f{cmin=0,cmax=100,frat=0},ose=s}",
  "n{sep=(h{pass=1}|z)f,ole=s,ose=s}", "n{sep=/(vnod>2)?h{pass=2}f;,ole=s,ose=s}", "/(velm>1)?n{sep=h,ole=s,ose=s}:g;", "n{sep=h{pass=2},ole=b{strat=s,cmin=1},ose=b{strat=g,cmin=2}}", "n{sep=h{pass=2},ole=s,ose=c{rat=1,cpr=s,unc=g}}",
  "n{sep=/(vnod>3)?m{vnod=2,low=h{pass=3},asc=f{bal=0.1}};,ole=v{strat=d{cmin=0,cmax=10,frat=0}},ose=v{strat=s}}",
