cd /verif;  python3-vt run.py "$@" | tee /tmp/o; f=$(grep -o 'replay=.*' /tmp/o | cut -d= -f2); [ -n "$f" ] && sh tools/show.sh $f
