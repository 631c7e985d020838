module verif/oracle

go 1.18

require github.com/mmadfox/go-geoql-parser v0.0.0

replace github.com/mmadfox/go-geoql-parser => /repo
