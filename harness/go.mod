module verif

go 1.19

require (
	vimagination.zapto.org/byteio v1.0.0
	vimagination.zapto.org/limage v0.0.0
	vimagination.zapto.org/memio v1.0.0
	vimagination.zapto.org/parser v1.0.0
)

replace (
	vimagination.zapto.org/byteio => ../standins/byteio
	vimagination.zapto.org/limage => /repo
	vimagination.zapto.org/memio => ../standins/memio
	vimagination.zapto.org/parser => ../standins/parser
)
