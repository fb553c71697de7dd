module verifsim

go 1.24.0

require (
	github.com/aws/go-kafka-event-source/streams v0.0.0
	github.com/cespare/xxhash/v2 v2.1.2 // indirect
	github.com/google/btree v1.1.2
	github.com/google/uuid v1.3.0
	github.com/json-iterator/go v1.1.12 // indirect
	github.com/klauspost/compress v1.15.11 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	github.com/pierrec/lz4/v4 v4.1.17 // indirect
	github.com/twmb/franz-go v1.8.0
	github.com/twmb/franz-go/pkg/kadm v1.2.1
	github.com/twmb/franz-go/pkg/kmsg v1.2.0
	pgregory.net/rapid v1.3.0
)

replace github.com/aws/go-kafka-event-source/streams => /repo/streams
