# sets N (runs) and CAP (seconds of simulation) for property $1 in tier $2
N=6000; CAP=60
case $1 in
P22) N=200000;;
P25) N=10000;;
P26) N=20000;;
esac
if [ "$2" = thorough ]; then N=$((N*40)); CAP=600; fi
