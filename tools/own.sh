for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); NOTEST=1 KEEP=1 /tmp/pb/full.sh $id $p; done
