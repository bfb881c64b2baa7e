#!/bin/sh
# demosh.sh rti|kit ID ["defines"]: writes the demo.sh of a seeded change (rti: demo.c with the coordinator's sources; kit: demo.cpp, a small program on the runtime).
s=/verif/seeded/$2
if [ "$1" = rti ]; then
  touch $s/NOKIT; cp /verif/tools/demokit/mkrti.sh $s/
  cat > $s/demo.sh <<'F'
#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
sh "$d/mkrti.sh" "$w/demo" "$d/demo.c" || exit 99
cd "$w" && timeout 100 "$w/demo" 2>&1
F
else
  cat > $s/demo.sh <<F
#!/bin/sh
d=\$(cd "\$(dirname "\$0")" && pwd); w=\$(mktemp -d); trap 'rm -rf "\$w"' EXIT
sh "\$d/mk.sh" "\$w/demo" "\$d/kit" "-DNUMBER_OF_WORKERS=2 -DSCHEDULER=${3:-SCHED_NP}" "\$d/demo.cpp" || exit 99
cd "\$w" && timeout 100 "\$w/demo" 2>&1
F
fi
