# the go build cache does not see files the bridge package #includes from outside its directory: their hash is part of the flags
BR=${MON_MODFILE:+$(sed -n 's/.*=> *//p' $MON_MODFILE | head -1)}
BH=$(cat ${BR:-/repo}/bridge/* /verif/cstub/include/vst3/* /verif/harness/cmd/h/*.[ch] 2>/dev/null | sha1sum | cut -c1-16)
export CGO_CFLAGS="-O1 -g -I/verif/cstub/a/b -I/verif/cstub/a -DVERIF_BRIDGE=0x$BH"
