// Command ingest checks the ingestion properties.
package main

import (
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
)

func main() {
	pbt.Main(props...)
}

var props []*pbt.Property

func register(p *pbt.Property) { props = append(props, p) }
