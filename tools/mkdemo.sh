#!/bin/bash
# mkdemo.sh ID: writes the standard demo.sh that runs main.go inside the module.
cat > /verif/seeded/$1/demo.sh <<'D'
#!/bin/bash
# Builds main.go inside the module (by overlay) and runs it in a scratch folder.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$d" >"$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./zzdemo || exit 1
export REPO="$PWD"; mkdir "$t/scratch" && cd "$t/scratch" && "$t/demo"
D
chmod +x /verif/seeded/$1/demo.sh
