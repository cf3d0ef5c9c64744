module github.com/QuarkChain/goquarkchain/zzverif

go 1.23

require (
	github.com/QuarkChain/goqkcclient v0.0.0-20191220040322-0b8ed7eb66e8
	github.com/StackExchange/wmi v0.0.0-20181212234831-e0a55b97c705 // indirect
	github.com/allegro/bigcache v1.2.0 // indirect
	github.com/aristanetworks/goarista v0.0.0-20190219163901-728bce664cf5 // indirect
	github.com/davecgh/go-spew v1.1.1
	github.com/deckarep/golang-set v1.7.1
	github.com/edsrzf/mmap-go v1.0.0
	github.com/elastic/gosigar v0.10.0
	github.com/ethereum/go-ethereum v1.8.20
	github.com/facebookgo/ensure v0.0.0-20160127193407-b4ab57deab51 // indirect
	github.com/facebookgo/stack v0.0.0-20160209184415-751773369052 // indirect
	github.com/facebookgo/subset v0.0.0-20150612182917-8dac2c3c4870 // indirect
	github.com/go-ole/go-ole v1.2.4 // indirect
	github.com/go-stack/stack v1.8.0 // indirect
	github.com/golang/mock v1.4.3
	github.com/golang/protobuf v1.3.0
	github.com/golang/snappy v0.0.1
	github.com/hashicorp/golang-lru v0.5.1
	github.com/huin/goupnp v1.0.0 // indirect
	github.com/jackpal/go-nat-pmp v1.0.1 // indirect
	github.com/kylelemons/godebug v0.0.0-20170820004349-d65d576e9348 // indirect
	github.com/mattn/go-colorable v0.1.1
	github.com/mattn/go-isatty v0.0.7
	github.com/naoina/go-stringutil v0.1.0 // indirect
	github.com/naoina/toml v0.1.1
	github.com/pborman/uuid v1.2.0
	github.com/pkg/errors v0.8.1
	github.com/pkg/sftp v1.10.1
	github.com/prometheus/prometheus v1.8.1
	github.com/rs/cors v1.6.0
	github.com/shirou/gopsutil v2.18.12+incompatible
	github.com/stretchr/testify v1.4.0
	github.com/syndtr/goleveldb v1.0.0 // indirect
	github.com/tecbot/gorocksdb v0.0.0-20181010114359-8752a9433481
	github.com/ybbus/jsonrpc v2.1.2+incompatible
	golang.org/x/crypto v0.0.0-20190820162420-60c769a6c586
	golang.org/x/net v0.0.0-20190404232315-eb5bcb51f2a3
	golang.org/x/sync v0.0.0-20190423024810-112230192c58
	golang.org/x/text v0.3.2 // indirect
	google.golang.org/grpc v1.19.1
	gopkg.in/check.v1 v1.0.0-20180628173108-788fd7840127
	gopkg.in/karalabe/cookiejar.v1 v1.0.0-20141109175019-e1490cae028c
	gopkg.in/natefinch/npipe.v2 v2.0.0-20160621034901-c1b8fa8bdcce
	gopkg.in/urfave/cli.v1 v1.20.0
)

require github.com/QuarkChain/goquarkchain v0.0.0

require pgregory.net/rapid v1.3.0

require (
	github.com/google/uuid v1.0.0 // indirect
	golang.org/x/sys v0.0.0-20190412213103-97732733099d // indirect
	google.golang.org/genproto v0.0.0-20180831171423-11092d34479b // indirect
)

replace github.com/QuarkChain/goquarkchain => /repo
