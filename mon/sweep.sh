#!/bin/bash
# sweep.sh PROP SEED N : exploratory, 8 shards
P=$1; S=$2; N=$3; V=${4:-asan}; M=/verif/build/$V/mon; mkdir -p /tmp/sw; K=$(( (N+7)/8 ))
for i in 0 1 2 3 4 5 6 7; do $M run --prop $P --seed $S --from $((i*K)) --to $(((i+1)*K)) --cpu ${CPU:-20} > /tmp/sw/$P.$i 2>/tmp/sw/$P.$i.err & done; wait
cat /tmp/sw/$P.? > /tmp/sw/$P.all
awk -F'\t' '$1=="C"{c[$4]++} $1=="V"{v[$2]++} $1=="K"{k[substr($2,1,150)]++} $1=="U"{u[$2]++} $1=="I"{ii++} $1=="S"{s[$2]+=$3} $1=="H"{h[$2]++} $1=="X"{x[$2]++} END{for(a in c)print "case",a,c[a]; for(a in v)print "VIOL",a,v[a]; for(a in k)print "CRASH",k[a],a; for(a in u)print "UB",u[a],a; print "islref",ii+0; for(a in s)printf "%s=%d ",a,s[a]; print ""; print "shapes",length(h); for(a in x) print "HARNESS",a,x[a]}' /tmp/sw/$P.all
