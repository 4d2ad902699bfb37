#!/bin/sh
# build.sh REPO OUT SOURCE...: links the real server sources of REPO with the stand-ins
R=$1; O=$2; shift 2
H=$(dirname "$0")
exec gcc -std=gnu11 -g -O1 -w -U_FORTIFY_SOURCE ${DEMO_CFLAGS} -D_GNU_SOURCE -D'SEATD_VERSION="x"' -D'SEATD_DEFAULTPATH="/nonexistent"' -D'REL_SRC_DIR=""' -I"$R/include" -I"$H" -o "$O" "$@" "$H/mock.c" \
 "$R"/common/*.c "$R/seatd/client.c" "$R/seatd/poller.c" "$R/seatd/seat.c" "$R/seatd/server.c" -lrt -Wl,--wrap=open,--wrap=close,--wrap=ioctl,--wrap=realpath,--wrap=dup
