# new.sh ID PROP 'FEATURES' 'DEPS' NEEDS BREAKS < main.rs
S=/verif/seeded/$1; mkdir -p $S
sed "s/FEATURES/$3/; s/^DEPS$/$4/" /verif/tools/demo-template.sh > $S/demo.sh; chmod +x $S/demo.sh
cp /verif/sim/Cargo.lock $S/Cargo.lock
cat > $S/main.rs
python3 - "$S/meta.json" "$2" "$5" "$6" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
PY
