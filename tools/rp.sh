# rp.sh ID DIR: run quick check of property on copy with patch
id=$1; d=${2:-/tmp/w/sn}; W=/tmp/w/rp_$id
cp -a /repo $W; (cd $W && git apply $d/$id/patch.diff) || exit 9
P=${3:-${id%%-*}}
t=$(date +%s); out=$(cd ${V:-/verif} && VF_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P 2>&1); rc=$?
echo "$id $P rc=$rc $(( $(date +%s)-t ))s $(echo "$out"|grep -v '^$'|head -1|cut -c1-250)"
rm -rf $W
