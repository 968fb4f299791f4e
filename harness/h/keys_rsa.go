package h

// rsaKeys are further RSA keys in OpenSSH and PEM form: odd moduli of several
// lengths, with exponents 3, 5, 17 and 65537 and fingerprints which begin or
// end with unusual letters. Nobody needs their private halves.
var rsaKeys = [][2]string{
	{`ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAQQEGTyTQ2NFP4wanI7Tb2GrzzykryNt6iNso2JWn/fBT9hE0sZBgiWTWzW6Rga+z/oJaHsI65nACTNmxw178D2jh`, `-----BEGIN RSA PUBLIC KEY-----
MFwwDQYJKoZIhvcNAQEBBQADSwAwSAJBAQZPJNDY0U/jBqcjtNvYavPPKSvI23qI
2yjYlaf98FP2ETSxkGCJZNbNbpGBr7P+gloewjrmcAJM2bHDXvwPaOECAwEAAQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABBQAAAEBhgjnnoBu2Xes56ZpX4ELcg6hS8KH1Eny23J8aIFP3Cx1XmgAP+UpHZ1OvRNC0gBRYFHvIc0f2bkxpGw95yIN3`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAYYI556Abtl3rOemaV+BC3IOoUvCh9RJ8
ttyfGiBT9wsdV5oAD/lKR2dTr0TQtIAUWBR7yHNH9m5MaRsPeciDdwIBBQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABBQAAAEIAzp4Ee12SMxeYsNd7ibwMCqotELUwnz4dwol3X8fh4oyc93zogoSAGG1+ATE9fDB4IfYMf0iouSj02LSIsi1anXc=`, `-----BEGIN RSA PUBLIC KEY-----
MFswDQYJKoZIhvcNAQEBBQADSgAwRwJCAM6eBHtdkjMXmLDXe4m8DAqqLRC1MJ8+
HcKJd1/H4eKMnPd86IKEgBhtfgExPXwweCH2DH9IqLko9Ni0iLItWp13AgEF
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAQQELtmqyowLoPy6aAzrBD0reFzywDvgBPT8fpu8tG4owAKOgLwII0Ulas8CGfaDTLUlADOwzZhrmbLW9JA1CbfhJ`, `-----BEGIN RSA PUBLIC KEY-----
MFwwDQYJKoZIhvcNAQEBBQADSwAwSAJBAQu2arKjAug/LpoDOsEPSt4XPLAO+AE9
Px+m7y0bijAAo6AvAgjRSVqzwIZ9oNMtSUAM7DNmGuZstb0kDUJt+EkCAwEAAQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABEQAAAEBRvfqJj4sz1AgLBUJtrxyjfsLtrRyzOjAiclOly6y88xYL7aDPwQwUZ+e99pJeWM8ATP8kQcJWK8Hd4xRrjvEX`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAUb36iY+LM9QICwVCba8co37C7a0cszow
InJTpcusvPMWC+2gz8EMFGfnvfaSXljPAEz/JEHCVivB3eMUa47xFwIBEQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABAwAAAIEA0VvSdbzWATa4z99AqRSnORSk/n7fMF4fcD/0mdBmh3geCP+FN7+4SaFrHZvNmZ3KFvf0GVQ0XdfBNa0pdB5YfLGNrCXct0N4AmhLSsIkcTRI3yHVqtTh+kYmjHs02eS6iLkFStItxDFLUGrez/gPsGkzgS7r/17J6nYO7hSnZh0=`, `-----BEGIN RSA PUBLIC KEY-----
MIGdMA0GCSqGSIb3DQEBAQUAA4GLADCBhwKBgQDRW9J1vNYBNrjP30CpFKc5FKT+
ft8wXh9wP/SZ0GaHeB4I/4U3v7hJoWsdm82ZncoW9/QZVDRd18E1rSl0Hlh8sY2s
Jdy3Q3gCaEtKwiRxNEjfIdWq1OH6RiaMezTZ5LqIuQVK0i3EMUtQat7P+A+waTOB
Luv/Xsnqdg7uFKdmHQIBAw==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABBQAAAEBx1HNrjSAzAKoEskqPPt8TvUJPd4WazpK43cTRaORZPJ/4NgSWAEe6aRv8tt3m4G3ruyZKvCw90iayuyMigNHv`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAcdRza40gMwCqBLJKjz7fE71CT3eFms6S
uN3E0WjkWTyf+DYElgBHumkb/Lbd5uBt67smSrwsPdImsrsjIoDR7wIBBQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABEQAAAIEA37OQaD5+3ODDkFczEch9vBZ56tpSMGF/jHNDDLxpePMCxEQwo+0cLvjvMMZuDM135PM4VtW3z1fOaiQ5qr8IlrXIeo04LTuR4x/tKK7UztGbMFicWvaOtPQ+3x1heYREaxD8tDTPIxBqEAlm+LJeWD1vRBSp4CrcKOpmmSX96MU=`, `-----BEGIN RSA PUBLIC KEY-----
MIGdMA0GCSqGSIb3DQEBAQUAA4GLADCBhwKBgQDfs5BoPn7c4MOQVzMRyH28Fnnq
2lIwYX+Mc0MMvGl48wLERDCj7Rwu+O8wxm4MzXfk8zhW1bfPV85qJDmqvwiWtch6
jTgtO5HjH+0ortTO0ZswWJxa9o609D7fHWF5hERrEPy0NM8jEGoQCWb4sl5YPW9E
FKngKtwo6maZJf3oxQIBEQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABAwAAAEIAh07A6eyO61wnr5TC/QRik2MC1fnwQGkc5QPa4W5+9DwlZ4MNdAP62a9VGD19Lyh2s1gvgauAxu4/+GVUUBvqEKE=`, `-----BEGIN RSA PUBLIC KEY-----
MFswDQYJKoZIhvcNAQEBBQADSgAwRwJCAIdOwOnsjutcJ6+Uwv0EYpNjAtX58EBp
HOUD2uFufvQ8JWeDDXQD+tmvVRg9fS8odrNYL4GrgMbuP/hlVFAb6hChAgED
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAADAQABAAAAQgCCDdaXTEK1e0HXPwkp8oV5DvGjFY8NgyKRkergeR33rRWE4xC1ImIzxvjQgN1v4JWyAQJepeanI/BZuIyScVpy3Q==`, `-----BEGIN RSA PUBLIC KEY-----
MF0wDQYJKoZIhvcNAQEBBQADTAAwSQJCAIIN1pdMQrV7Qdc/CSnyhXkO8aMVjw2D
IpGR6uB5HfetFYTjELUiYjPG+NCA3W/glbIBAl6l5qcj8Fm4jJJxWnLdAgMBAAE=
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABAwAAAEIAvOFLpd1jV317W52R9XzYKFSBACPRDlMp4dO0fnqkqvafzHBgs1bapLcmERNbb4TTIFwrSNhafaGrXK5l3X/6MRM=`, `-----BEGIN RSA PUBLIC KEY-----
MFswDQYJKoZIhvcNAQEBBQADSgAwRwJCALzhS6XdY1d9e1udkfV82ChUgQAj0Q5T
KeHTtH56pKr2n8xwYLNW2qS3JhETW2+E0yBcK0jYWn2hq1yuZd1/+jETAgED
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABEQAAAEEAlJIq2UWEHtOdabg469FOV3K+Fwsowoc/IPPv2L72hmFPbnJTlRzE3A4DO9EDoY2nVQepcj2ayGb5SdRmyAlFzw==`, `-----BEGIN RSA PUBLIC KEY-----
MFowDQYJKoZIhvcNAQEBBQADSQAwRgJBAJSSKtlFhB7TnWm4OOvRTldyvhcLKMKH
PyDz79i+9oZhT25yU5UcxNwOAzvRA6GNp1UHqXI9mshm+UnUZsgJRc8CARE=
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABEQAAAEBzUr2XW1mkcWuSeUDI7w+LPGI3ZwRdLuPqAATNGVpgZaH8TCHf0s1Lr9n5AFPkwfttzihIlG/rA4vu4yTWKF0H`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAc1K9l1tZpHFrknlAyO8PizxiN2cEXS7j
6gAEzRlaYGWh/Ewh39LNS6/Z+QBT5MH7bc4oSJRv6wOL7uMk1ihdBwIBEQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABBQAAAEBZHPNT/oa0yYvM9GmHddwBcAZ2grkGXt1FOktIsPnaMoNAhD24X4rzxUXMgtW6/lPfjJaYwA1IxIAlTzAQIhmr`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAWRzzU/6GtMmLzPRph3XcAXAGdoK5Bl7d
RTpLSLD52jKDQIQ9uF+K88VFzILVuv5T34yWmMANSMSAJU8wECIZqwIBBQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABAwAAAEEBc84EvQZV2fvYqtV1oT3PD4HSKczIFHtBhAnb/KKp5/xfOhY9Atwhm6w72zariquBN3j0/sk1ltS8HvaQVnsFWQ==`, `-----BEGIN RSA PUBLIC KEY-----
MFowDQYJKoZIhvcNAQEBBQADSQAwRgJBAXPOBL0GVdn72KrVdaE9zw+B0inMyBR7
QYQJ2/yiqef8XzoWPQLcIZusO9s2q4qrgTd49P7JNZbUvB72kFZ7BVkCAQM=
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABAwAAAEBwr9ZilS2GO1i+SZHaiLqOk6dcDFVGA5GVD7jxAEEawClspIWJ1Le9oT3GOgsPnzsh8/eV0g/r3sQYDyUG1W7R`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAcK/WYpUthjtYvkmR2oi6jpOnXAxVRgOR
lQ+48QBBGsApbKSFidS3vaE9xjoLD587IfP3ldIP697EGA8lBtVu0QIBAw==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABBQAAAEBcG4k1t8uzHgAZrriSCua8ToPCZ82+tWvbp9lqczL3EYVx7UoBSa7YGNDi9z9oSUNMOWAMhB3k8eQr24AfOyuv`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAXBuJNbfLsx4AGa64kgrmvE6DwmfNvrVr
26fZanMy9xGFce1KAUmu2BjQ4vc/aElDTDlgDIQd5PHkK9uAHzsrrwIBBQ==
-----END RSA PUBLIC KEY-----
`},
	{`ssh-rsa AAAAB3NzaC1yc2EAAAABAwAAAEBr7B18KTUCe1D8kFqfSyalOiSS1+4oC+O2jxzfW9QI1systPSAJXZhTkKi37wj8HgL+tTwsLDQqmj69ORdfM8P`, `-----BEGIN RSA PUBLIC KEY-----
MFkwDQYJKoZIhvcNAQEBBQADSAAwRQJAa+wdfCk1AntQ/JBan0smpTokktfuKAvj
to8c31vUCNbMrLT0gCV2YU5Cot+8I/B4C/rU8LCw0Kpo+vTkXXzPDwIBAw==
-----END RSA PUBLIC KEY-----
`},
}
