for r in $(ls /tmp/rf); do case $r in keyword*|emit*|union*|main*|out-*|scan-*) P="C14 C15 C16 C19";; *) P="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18";; esac; /verif/tools/try.sh -d /tmp/rf -p "$P" $r; done
