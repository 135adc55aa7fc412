package main

import (
	"fmt"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/ref"
)

// bigPdu makes a PDU with a long list, a long string or a payload of an exact
// size; weight is about its size in bytes.
type bigPdu struct {
	name   string
	weight int
	mk     func() agentx.Pdu
}

var textBlock = strings.Repeat("The quick brown fox jumps over the lazy dog. 0123456789 ", 64)

func textOf(n int) string {
	return strings.Repeat(textBlock, n/len(textBlock)+1)[:n]
}

// bigPdus lists PDUs of weight up to max: every list length to 300 and the
// neighbourhood of the powers of two to 65536, string and Opaque sizes around
// the powers of two to 16 MB, payload sizes around multiples of 64 KB.
func bigPdus(max int) (out []bigPdu) {
	add := func(name string, weight int, mk func() agentx.Pdu) {
		if weight <= max {
			out = append(out, bigPdu{name, weight, mk})
		}
	}
	var counts []int
	for n := 4; n <= 300; n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 400, 500, 700, 999, 1000, 1001, 5000, 9999, 10000, 10001, 50000)
	for k := 9; k <= 16; k++ {
		counts = append(counts, 1<<k-1, 1<<k, 1<<k+1, 3<<(k-1))
	}
	for i, n := range counts {
		flags := agentx.Flags(i % 2 * ref.FNbo)
		for _, tag := range []byte{12, 18} {
			add(fmt.Sprintf("%d varbinds", n), n*30, func() agentx.Pdu {
				p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: flags, PacketId: uint32(n), Params: defaultParams(ref.Types[tag].Kind)}
				p.Varbinds = make([]asn.Varbind, n)
				for j := range p.Varbinds {
					t := vtOrder[(j+j/13)%len(vtOrder)]
					vs := fewValues(t)
					p.Varbinds[j] = vb(t, []uint32{1, 3, 6, 1, 4, uint32(j)}, vs[j/26%len(vs)])
					if t == 65 {
						p.Varbinds[j].Value = uint32(j)
					}
				}
				return p
			})
		}
		tag := rangeTags[i%3]
		add(fmt.Sprintf("%d ranges", n), n*30, func() agentx.Pdu {
			p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: flags ^ ref.FNbo, PacketId: uint32(n), Params: defaultParams(ref.Types[tag].Kind)}
			p.Ranges = make([]agentx.SearchRange, n)
			for j := range p.Ranges {
				p.Ranges[j] = agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, uint32(j)}, StartIncluded: byte(j % 2)}
				if j%3 == 1 {
					p.Ranges[j].EndOid = []uint32{2, uint32(j)}
				}
			}
			return p
		})
	}
	// long OIDs in every place
	for n := 8; n <= 128; n++ {
		long := func(k int) []uint32 {
			o := []uint32{1, 3, 6, 1, uint32(n%4 + 1)}
			for len(o) < k {
				o = append(o, uint32(len(o)*0x01010101+n))
			}
			return o[:k]
		}
		flags := agentx.Flags(n % 2 * ref.FNbo)
		add(fmt.Sprintf("varbinds with OIDs of %d", n), n*20, func() agentx.Pdu {
			return agentx.Pdu{Tag: 18, Flags: flags, Params: agentx.ResponseParams{SysUpTime: uint32(n)}, Varbinds: []asn.Varbind{vb(6, long(n), long(n)), vb(6, long(n)[1:], long(n)[2:]), vb(4, long(n-1), "x"), vb(6, long(3), long(n))}}
		})
		add(fmt.Sprintf("ranges with OIDs of %d", n), n*20, func() agentx.Pdu {
			tag := rangeTags[n%3]
			return agentx.Pdu{Tag: agentx.PduTag(tag), Flags: flags, Params: defaultParams(ref.Types[tag].Kind), Ranges: []agentx.SearchRange{{StartOid: long(n), EndOid: long(n)[1:], StartIncluded: 1}, {StartOid: long(n - 2)}, {StartOid: long(4), EndOid: long(n)}}}
		})
		add(fmt.Sprintf("parameters with an OID of %d", n), n*4, func() agentx.Pdu {
			p := agentx.Pdu{Flags: flags, PacketId: uint32(n)}
			switch n % 5 {
			case 0:
				p.Tag, p.Params = 1, agentx.OpenParams{Timeout: byte(n), Oid: long(n), Description: textOf(n)}
			case 1:
				p.Tag, p.Params = 3, agentx.RegisterParams{Priority: 127, RangeSubid: byte(n), Subtree: long(n), UpperBound: 77}
			case 2:
				p.Tag, p.Params = 4, agentx.UnregisterParams{Priority: 127, Subtree: long(n)}
			case 3:
				p.Tag, p.Params = 16, agentx.AddAgentCapsParams{Oid: long(n), Description: textOf(n)}
			case 4:
				p.Tag, p.Params = 17, agentx.RemoveAgentCapsParams{Oid: long(n)}
			}
			return p
		})
	}
	var sizes []int
	for k := 7; k <= 24; k++ {
		if k < 21 || k == 24 {
			for d := -3; d <= 3; d++ {
				sizes = append(sizes, 1<<k+d)
			}
		}
	}
	sizes = append(sizes, 999, 1000, 1001, 1400, 1472, 1500, 8000, 9000, 9999, 10000, 10001, 99999, 100000, 100001, 1000000)
	for _, n := range sizes {
		for i := 0; i < 4; i++ {
			if n > 1<<20+3 && (n&3 != i || i == 3) {
				continue
			}
			add(fmt.Sprintf("string %d of %d bytes", i, n), n, func() agentx.Pdu {
				s := textOf(n)
				p := agentx.Pdu{Tag: 12, Flags: agentx.Flags((n + i) % 2 * ref.FNbo), SessionId: uint32(n), Params: agentx.NoParams{}}
				switch i {
				case 0:
					p.Varbinds = []asn.Varbind{vb(4, []uint32{1}, s), vb(2, []uint32{2}, int32(2))}
				case 1:
					p.Varbinds = []asn.Varbind{vb(68, []uint32{1}, []byte(s)), vb(65, []uint32{2}, uint32(2))}
				case 2:
					p.Flags |= ref.FCtx
					p.Context = s
				case 3:
					p.Tag = 16
					p.Params = agentx.AddAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 9}, Description: s}
				}
				return p
			})
		}
	}
	// payloads of an exact size
	for _, n := range []int{252, 256, 260, 508, 512, 1020, 1024, 1028, 4096, 8192, 32764, 32768, 32772, 65528, 65532, 65536, 65540, 131068, 131072, 131076, 196608, 262144, 1<<20 - 4, 1 << 20, 1<<20 + 4, 1 << 24} {
		for f := 0; f < 2; f++ {
			add(fmt.Sprintf("payload of %d bytes", n), n, func() agentx.Pdu {
				// varbind header 4, null OID 4, length 4
				return agentx.Pdu{Tag: 12, Flags: agentx.Flags(f * ref.FNbo), Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb(4, nil, textOf(n-12-f))}}
			})
		}
	}
	return
}
