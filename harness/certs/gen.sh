#!/bin/bash
# Generates the test certificates next to this script (committed; valid from 2001 to 2120).
# Existing ones stay as they are.
set -e
cd "$(dirname "$0")"
W=$(mktemp -d)
conf() { # ca
  cat > $W/$1.cnf <<C
[ca]
default_ca=d
[d]
database=$W/$1.idx
serial=$W/$1.srl
new_certs_dir=$W
default_md=sha256
policy=p
unique_subject=no
certificate=$PWD/$1.pem
private_key=$PWD/$1-key.pem
[p]
commonName=supplied
C
  : > $W/$1.idx; echo 1000 > $W/$1.srl
}
key() { openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out $1-key.pem 2>/dev/null; }
sign() { # name ca ext start end
  openssl ca -batch -notext -config $W/$2.cnf -in $W/$1.csr -out $1.pem -extfile $3 -startdate $4 -enddate $5 $6 2>/dev/null
}
ca() {
  conf $1; [ -s $1.pem ] && return
  key $1; : > $1.pem; conf $1
  openssl req -new -key $1-key.pem -subj "/CN=$2" -out $W/$1.csr
  printf 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n' > $W/e
  sign $1 $1 $W/e 20010101000000Z 21200101000000Z -selfsign
}
leaf() { # name ca san start end usage
  [ -s $1.pem ] && return
  key $1
  openssl req -new -key $1-key.pem -subj "/CN=$1" -out $W/$1.csr
  printf 'basicConstraints=CA:FALSE\nsubjectAltName=%s\nextendedKeyUsage=%s\nkeyUsage=digitalSignature\n' "$3" ${6:-serverAuth} > $W/e
  sign $1 $2 $W/e $4 $5
  cat $2.pem >> $1.pem
}
A=20010101000000Z B=21200101000000Z
ca ca "Trusted Test CA"
ca rogue "Untrusted Test CA"
leaf good ca "DNS:localhost,IP:127.0.0.1" $A $B
leaf second ca "DNS:localhost,IP:127.0.0.1" $A $B
leaf otherhost ca "DNS:other.example.org,IP:10.9.8.7" $A $B
leaf untrusted rogue "DNS:localhost,IP:127.0.0.1" $A $B
leaf expired ca "DNS:localhost,IP:127.0.0.1" $A 20020101000000Z
leaf future ca "DNS:localhost,IP:127.0.0.1" 21000101000000Z $B
leaf clientonly ca "DNS:localhost,IP:127.0.0.1" $A $B clientAuth
leaf nosan ca "email:localhost@example.org" $A $B
leaf dnsonly ca "DNS:localhost" $A $B
leaf iponly ca "IP:127.0.0.1" $A $B
leaf wild ca "DNS:*.localhost,DNS:localhost.example.org,DNS:*" $A $B
# A leaf behind an intermediate authority
if ! [ -s inter.pem ]; then
  key inter
  openssl req -new -key inter-key.pem -subj "/CN=Intermediate" -out $W/inter.csr
  printf 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n' > $W/e
  sign inter ca $W/e $A $B
fi
conf inter
leaf deep inter "DNS:localhost,IP:127.0.0.1" $A $B
# Signed by a leaf, which is no authority
conf good
leaf byleaf good "DNS:localhost,IP:127.0.0.1" $A $B
# Its own authority
if ! [ -s selfsigned.pem ]; then
  key selfsigned; conf selfsigned
  openssl req -new -key selfsigned-key.pem -subj "/CN=localhost" -out $W/selfsigned.csr
  printf 'basicConstraints=CA:FALSE\nsubjectAltName=DNS:localhost,IP:127.0.0.1\nextendedKeyUsage=serverAuth\n' > $W/e
  : > selfsigned.pem
  sign selfsigned selfsigned $W/e $A $B -selfsign
fi
rm -rf "$W"
