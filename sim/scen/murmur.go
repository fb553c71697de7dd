package scen

// Murmur2 is the hash of the canonical Java client (org.apache.kafka.common.utils.Utils.murmur2),
// written from its definition and independent of any client library.
func Murmur2(data []byte) uint32 {
	n := len(data)
	const m = uint32(0x5bd1e995)
	h := uint32(0x9747b28c) ^ uint32(n)
	i := 0
	for ; i+4 <= n; i += 4 {
		k := uint32(data[i]) + uint32(data[i+1])<<8 + uint32(data[i+2])<<16 + uint32(data[i+3])<<24
		k *= m
		k ^= k >> 24
		k *= m
		h *= m
		h ^= k
	}
	var tail uint32
	for j := n - 1; j >= i; j-- {
		tail = tail<<8 | uint32(data[j])
	}
	if i < n {
		h ^= tail
		h *= m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

// JavaPartition is the partition that the Java client's default partitioner chooses for a key.
func JavaPartition(key []byte, n int) int32 { return int32(Murmur2(key)&0x7fffffff) % int32(n) }
