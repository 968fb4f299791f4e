package h

// Key material of the harnesses, generated once for them.

var sshKeys = []string{
	`ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAgQDcse5ha7mY2gbuGUFzFEWJLr6A8/5zWqItqh/dtYxHFGhuEaLSYHtzvRkdqSLX0X5GimElBEfzjLgOD0c1iSdlZ9bl/1kduRS9wZr9Cx/x2XZ8WXpxl/A8bgPsxxcDLrDdlJWL1SV7hK29bZTM1ZSQys/mD+g+xHgiC3L3Wyj8FQ==`,
	`ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAgQDEYXvbzsJWP9ZxPLPoPfFKtlHOTew+hXF9ZcscLkTDch748R95e7GDf8sJ8ffxyoYxFp0BbG+B8kQQvYs6C3jH24GTiZ2YktquDzXUHXUFNocnVaQbOGbR+NBaAs2C8TrPZgCOCi8V6eJRhXkf0pu1g3494pidcU92HtUjeS9msQ==`,
	`ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAgQCxNcphRGPu1OifrQIqUau5WXU96U1PGV6ww81hBv5zOnnZq9YbXHTCLuHJBhpiawj2isJDN5qttFCP8Ww4KT8HAqG97KaUqtnIHCCIvTE62FvM4V0P8dw1HECKZ2YKIbZdBv35ZMcSVV9xy1Pns0lgDwCiGS+YZy27yxb4Y77p1w==`,
}

// pemKeys are the same keys as sshKeys.
var pemKeys = []string{
	`-----BEGIN RSA PUBLIC KEY-----
MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQDcse5ha7mY2gbuGUFzFEWJLr6A
8/5zWqItqh/dtYxHFGhuEaLSYHtzvRkdqSLX0X5GimElBEfzjLgOD0c1iSdlZ9bl
/1kduRS9wZr9Cx/x2XZ8WXpxl/A8bgPsxxcDLrDdlJWL1SV7hK29bZTM1ZSQys/m
D+g+xHgiC3L3Wyj8FQIDAQAB
-----END RSA PUBLIC KEY-----
`,
	`-----BEGIN RSA PUBLIC KEY-----
MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQDEYXvbzsJWP9ZxPLPoPfFKtlHO
Tew+hXF9ZcscLkTDch748R95e7GDf8sJ8ffxyoYxFp0BbG+B8kQQvYs6C3jH24GT
iZ2YktquDzXUHXUFNocnVaQbOGbR+NBaAs2C8TrPZgCOCi8V6eJRhXkf0pu1g349
4pidcU92HtUjeS9msQIDAQAB
-----END RSA PUBLIC KEY-----
`,
	`-----BEGIN RSA PUBLIC KEY-----
MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQCxNcphRGPu1OifrQIqUau5WXU9
6U1PGV6ww81hBv5zOnnZq9YbXHTCLuHJBhpiawj2isJDN5qttFCP8Ww4KT8HAqG9
7KaUqtnIHCCIvTE62FvM4V0P8dw1HECKZ2YKIbZdBv35ZMcSVV9xy1Pns0lgDwCi
GS+YZy27yxb4Y77p1wIDAQAB
-----END RSA PUBLIC KEY-----
`,
}

// pkcs1Key is the first key in a form which is not supported.
const pkcs1Key = `-----BEGIN RSA PUBLIC KEY-----
MIGJAoGBANyx7mFruZjaBu4ZQXMURYkuvoDz/nNaoi2qH921jEcUaG4RotJge3O9
GR2pItfRfkaKYSUER/OMuA4PRzWJJ2Vn1uX/WR25FL3Bmv0LH/HZdnxZenGX8Dxu
A+zHFwMusN2UlYvVJXuErb1tlMzVlJDKz+YP6D7EeCILcvdbKPwVAgMBAAE=
-----END RSA PUBLIC KEY-----
`

const ed25519Key = `ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIIVWHOF0mncsdL1Dh/sSq9tZBNu448cLuMzYXAMFl/1A`

const ecdsaKey = `ecdsa-sha2-nistp256 AAAAE2VjZHNhLXNoYTItbmlzdHAyNTYAAAAIbmlzdHAyNTYAAABBBAN6PiEOhP8CWT+H2jHWkd71tvZwLD8Pi/ikfEy0S94Hc2aiblduOjXGzMNqyUYXW47zd2zcX7FqKxyYy57DAPY=`

// ecPem is an EC key labelled as an RSA key.
const ecPem = `-----BEGIN RSA PUBLIC KEY-----
MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEA3o+IQ6E/wJZP4faMdaR3vW29nAs
Pw+L+KR8TLRL3gdzZqJuV246NcbMw2rJRhdbjvN3bNxfsWorHJjLnsMA9g==
-----END RSA PUBLIC KEY-----
`

var pgpKeys = []string{
	`-----BEGIN PGP PUBLIC KEY BLOCK-----

mI0Eav9kswEEAL45TYY1sa0behEv9ACg6ncyAdCEa69IhRldyfuddhpm/WGZPnGl
JK61809hduiPqd4pATg3Pr6VKoGuwArQhzpEaf/dxw1Qkb9LPOTZc6RVAQos5e13
bwEOpfHq3zlY5cBVRyBXKOPbvyLoiYE3Pdapma7/BJOND6mBqa4+sSq1ABEBAAG0
DmFubiA8YW5uQHguaW8+iNEEEwEKADsWIQRmomDqBMdFtav8yhUePgMkiKKGCgUC
av9kswIbAwULCQgHAgIiAgYVCgkICwIEFgIDAQIeBwIXgAAKCRAePgMkiKKGCvEr
A/9kQjC6cAxaMHcGtg+1MnwMEefyDrgq4JgwLaLlEfPC4ZVEJq034oq3iJqQxr1G
1L/dfodxLp4q0vAFojHlM6V5XbCdMV7ghvK6pMTvnrlgSUFC7VLEiJvzBi+YWTXs
az/NjADfnr/S1+vFa/vkFSSSNpTYYKKjnYchroAonCK6xA==
=oLna
-----END PGP PUBLIC KEY BLOCK-----
`,
	`-----BEGIN PGP PUBLIC KEY BLOCK-----

mI0Eav9kswEEAL+R7dDtmKdBcEXCtAsqXig4cKLyQUvKu1pYKRfMaSeXiOlxcOWY
zAipUph5WX/0HtZ/LYdephYx1ak61n4uNu7v67A2z1HUkjXPFiIMQwj0x664cPpH
tzyv1fnH7p2P/0zaDKpl4wx92NwNaC7aHtCWz3iZdqGVbWpO6snAHivJABEBAAG0
DmJlbiA8YmVuQHguaW8+iNEEEwEKADsWIQRSq15YwcfTSM34BN2y9opxnt97rQUC
av9kswIbAwULCQgHAgIiAgYVCgkICwIEFgIDAQIeBwIXgAAKCRCy9opxnt97rZR+
A/9h6wl7flV267VqkmcYZbkZ5qp9mT13jZlKi/YJtwJw6OD3oeGdKdYiPX1z5NDH
4Mp4wN66UrIxDOjeIuxC1mlGbCNseWL8rirnrHj1G0MYhQOG2TLcW249E5ONOIcs
jcQz7ZaXUiBXavSpQ0Gmst9AW9Je7CJjLyWXDYj6lbk0Ug==
=4knk
-----END PGP PUBLIC KEY BLOCK-----
`,
	`-----BEGIN PGP PUBLIC KEY BLOCK-----

mQGiBGr/ZLMRBADJ80VOLImwQ1Uwk5DPdUWQAqx0wp1+FZw0fPbgPPajkiw9GIK3
r957gYshHS75h/uR2kDXbK4nQr9KUKw5gaBBJw7NksB9JCQdDLQAF9437txgIJyz
vVPtlg9nxN7zYPOwBvRpbsI4RcH7+45myGwWAhupr9fOb1Qsbysik0lD8wCglxeS
iLFsa49CYQO80kvg9gONJMEEAMeu8h0aYDwoNh1YuiecuvbiJ0AZcI/z3RM3UvKX
o1rFF9D/tLqziJ9LuUjujE2BaCIFS1DgfVB21+LIDSzjYSt4F7UKRBYldicW4h8v
etoMg28Z9w5zj9MfbZnZO69sAU3BN8E7LZ5//pxfObhcx4D9kO0QpMU8t8AV8x15
gCvLBACg3YGbMeNztcJqrR5mm1vxPJUb1s93KZbpJgUU6VsAjiD+xNn4LTGcZdvA
CP9TLMcGuJjHIqtssUjCSUIcXqaGkb1DtcoHAREZA8Z42OmYY6sPU18RQA0v4IvT
BHp3V9e+FYgJot2yol5cb3DxxcUchcTBNkc6IO5lpnXe55RAerQOY2F0IDxjYXRA
eC5pbz6IewQTEQIAOxYhBG5LYjQl5oJGaZks8h83jlNoz1JVBQJq/2SzAhsDBQsJ
CAcCAiICBhUKCQgLAgQWAgMBAh4HAheAAAoJEB83jlNoz1JVdfAAnRpLtNSuII7u
3nD03C9yt5Lo/uEVAJwPPNsEjhBnjM96RctOyuEoatZEGg==
=ycG3
-----END PGP PUBLIC KEY BLOCK-----
`,
}

// pgpPair is a key ring of two keys.
const pgpPair = `-----BEGIN PGP PUBLIC KEY BLOCK-----

xo0Eav+yEQEEAMiEN22v+QkFb2+kIieuWSgP+95UgbrIGvhDYMMjTco+mPVDMN/O
FsenOoFZs1CqHFjtDYm58Wk0I+UdSfRt9/7rXZcyanRdwp551XQGfQKg4Oc5+9UK
FAY1bfyG1B8GlF/TBarUZ3g1ogL0bv9zoY9RAJBc81mTGMrAhEvfLGRhABEBAAHN
DmRhbiA8ZGFuQHguaW8+wqIEEwEIABYFAmr/shEJECqsX22hGMt/AhsDAhkBAADP
JgQADaX9jBOR5NBDkji/O9V1vvCtHl1q0gS7pGHf3FTpgnwUOOS656Rg6Jg4gray
mEI8Wn6bmS/EbAsOjeeb8Hu1a9zF6xs4yit9mXlZw0S8q/maakLiFEmzxh0G1pwu
xPLACmWvOqsEtz6+Abenfqv/OmLbVq/nV9YZ6uap+MuMGhPGjQRq/7IRAQQAwxLB
bS2a91KmFLxS2wSBT3ommyB6TS04nkI9Hr+yW2EIALHy9kfbSJMbrV4ICPlvDIPS
n02dSgm8Pq/YDVVjWHbMdpV/z+HVZuoWfkvHzYPq7QTKqpOLwSWtSJkKXWWA6AGw
23ldxaqKNXTbKl/EjJt5tQUqBXp5XuJLd2biR0EAEQEAAc0OZXZlIDxldmVAeC5p
bz7CogQTAQgAFgUCav+yEQkQ0SsojM7OyaoCGwMCGQEAALBuBAB+e9su4dxOeqPS
+wTQM2utcSKTQ6jf2qsCDK1PGy8bJhSPsOz+84AZCNwiCwfcpWnHRA0N96eTGlgk
qi4q+wDG8BMgAOhm4WZHmeFkfkBQO7RXOv3UAyEPt3ghjhKSAUefS9lk9x0fHzlE
sK6hHeuaEBjGav9kudkNPzgordEduA==
=0XKV
-----END PGP PUBLIC KEY BLOCK-----
`

// pgpLatin is a PGP key whose user ID is not UTF-8.
const pgpLatin = `-----BEGIN PGP PUBLIC KEY BLOCK-----

xo0EX14QAAEEAOfzDnWp26WDz9U9nxBxLFFFGqriWxSwUA9/E28Zk8YIppw8AhKs
PIa1KG0V+u55Qahw0kL7LZrO66+Lj/FDcGfcd13g4oPKLnvOsGizwczsKRWTpfyx
5bRwUBeId720kZHKn9FTFsJFsNzKMw6bVzY2kptiyAWW3gCdFCWUbX+xABEBAAHN
D0r8cmdlbiA8akB4LmlvPsKiBBMBCAAWBQJfXhAACRCEn+zLairX/wIbAwIZAQAA
+TcEAJ7771acsUtWFt+4v52Qs+ysBlJ7riwn6Pg0MYP8/o5ScMRN8SanXuKAnbfm
iWTjnyyam2hJOj1GeN+fe8ZMBSizJqBnkhP3k/mx0v+/nF5aZc2lJOE7LNUV5m0b
QM/3mBW170nQL9oDXf6OyZg52BwMovOSrmcfG1X7MSzHdRDZzo0EX14QAAEEAL1C
/AbDiCoDySW3pnJcKDeeNqoycxk3RBjkyc3MnwvKVmf+59/xsF/78M5M70anJCvc
csamygnzE0elwhA2Ve+gtIP3fBLQq8hfsijZ4zo5DXe83kZ9DwZLxcgZl8kPCYr0
m8aOpXOBct5SdNHUnAnxmtjMuifs7DU3+W34pMVBABEBAAHCnwQYAQgAEwUCX14Q
AAkQhJ/sy2oq1/8CGwwAAJ3bBADJ9qR3Pt/EghMj9SxyQG6zM1am9A5FU2+q402i
HC+QEtj1zAwI0CFh35dhGw8ChyY0ae+SkFqF5DY0scs52HcWMuM10GFqJG+v37xc
VXMOPocP1qLhC65kUat9iVZveR9xXE5IpK+n2wFl+3x9j1nw2cud/+0dp+AtWmNX
thLriw==
=92LC
-----END PGP PUBLIC KEY BLOCK-----
`
