mk () 
{ 
    cat > seeded/$1/demo.sh <<E
#!/bin/bash
# cwd is the repository
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
I=\$(for d in src/*/; do echo -n "-I\$d "; done)
gcc -std=gnu99 -g -fopenmp -fcommon -w -Iinclude -IWBMatrix/include \$I $3 "\$D/demo.c" $2 -lcrypto -lm -o "\$T/demo" || exit 2
cd "\$T" && timeout 200 ./demo
E

}
