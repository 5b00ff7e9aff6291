module vharness

go 1.23.0

require (
	github.com/go-asn1-ber/asn1-ber v1.5.8-0.20250403174932-29230038a667
	github.com/go-ldap/ldap/v3 v3.4.11
	go.etcd.io/bbolt v1.4.0
	golang.org/x/crypto v0.36.0
)

require (
	github.com/Azure/go-ntlmssp v0.0.0-20221128193559-754e69321358 // indirect
	github.com/google/uuid v1.6.0 // indirect
	golang.org/x/sys v0.31.0 // indirect
)
