/* rrtype unions: unpacking, membership and merging against RFC 4034 type bitmaps */
#include "abs.h"
#include "dnstable-private.h"
static rrtype_unpacked_set set;

/* membership by definition; -1: not a union */
static int ref_member(const uint8_t *m, size_t n, unsigned t) {
	if (n == 0) return 1;
	if (n == 1) return m[0] == t;
	if (n == 2) return (m[0] | m[1] << 8) == (int)t;
	size_t i = 0;
	int found = 0, prev = -1;
	while (n - i >= 2) {
		unsigned w = m[i], l = m[i + 1];
		i += 2;
		if ((int)w <= prev || l < 1 || l > 32 || l > n - i) return -1;
		prev = w;
		if (w == t / 256 && (t % 256) / 8 < l) {
			unsigned byte = m[i + (t % 256) / 8];
			if (byte & (0x80u >> (t % 8))) found = 1;
		}
		i += l;
	}
	return i == n ? found : -1;
}

void wid_test_any(void) {
	size_t n = abs_range("size", 0, 1UL << 32);
	const uint8_t *m = abs_robuf("union", n);
	unsigned ty = abs_bool("rdata names") ? DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV : DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD;
	rrtype_test(ty, abs_u16("rrtype"), m, n);
	abs_reach("tested");
}
/* no index: everything which is indexed at all */
void drv_test_empty(void) {
	uint16_t t = abs_u16("rrtype");
	uint8_t one[1] = { 0 };
	const uint8_t *m = abs_bool("no map") ? NULL : one;
	abs_check(rrtype_test(DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD, t, m, 0), "an RRset name without a union may have any rrtype");
	int want = t == 2 || t == 5 || t == 6 || t == 12 || t == 15 || t == 33 || t == 39 || t == 64 || t == 65;
	abs_check(!!rrtype_test(DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV, t, m, 0) == want,
		"an rdata name without a union may have NS, CNAME, SOA, PTR, MX, SRV, DNAME, SVCB or HTTPS, and no other rrtype");
	abs_reach("no union");
}
static void member(const uint8_t *m, size_t n) {
	unsigned ty = abs_bool("rdata names") ? DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV : DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD;
	uint16_t t = abs_u16("rrtype");
	int want = ref_member(m, n, t);
	int got = rrtype_test(ty, t, m, n);
	if (want >= 0) {
		abs_check(!!got == want, "an rrtype is in a union exactly when its bit is set (or it is the one rrtype)");
		if (want) abs_reach("member"); else abs_reach("not a member");
	}
}
void drv_test_short(void) {
	size_t n = abs_split(abs_range("size", 1, 2), 1, 2);
	member(abs_robuf("union", n), n);
}
void cut_test_blocks(void) {
	size_t n = abs_range("size", 3, 1UL << 32);
	member(abs_robuf("union", n), n);
}
void drv_test_truncated(void) {
	/* a last block longer than what is left, or half a block header: everything may be present */
	size_t n = abs_split(abs_range("size", 3, 6), 3, 6);
	uint8_t *m = abs_buf("union", n);
	uint16_t t = abs_u16("rrtype");
	abs_assume(m[0] != t / 256);
	if (m[1] > n - 2 || (size_t)m[1] + 3 == n) {
		abs_check(rrtype_test(DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD, t, m, n), "a truncated union excludes nothing");
		abs_reach("truncated");
	}
}
void drv_unpack_short(void) {
	size_t n = abs_split(abs_range("size", 0, 2), 0, 2);
	const uint8_t *m = abs_robuf("union", n);
	int r = rrtype_union_unpack(m, n, &set);
	if (n == 0) abs_check(r == 0, "an empty union lists nothing");
	else {
		abs_check(r == 1, "one or two bytes are one rrtype");
		abs_check(set.rrtypes[0] == (n == 1 ? m[0] : m[0] | m[1] << 8), "one or two bytes are one little-endian rrtype");
	}
}
/* unpacking lists exactly the members, in increasing order */
static unsigned want[32];
static int nwant;
static void block(unsigned w, const uint8_t *b, unsigned n) {
	for (unsigned i = 0; i < n; i++)
		for (unsigned j = 0; j < 8; j++)
			if (b[i] & (0x80 >> j)) want[nwant++] = w * 256 + i * 8 + j;
}
static void listed(int r, int ok) {
	abs_check((r >= 0) == !!ok, "unpacking fails exactly on malformed unions");
	if (r < 0) { abs_reach("malformed"); return; }
	abs_check(r == nwant, "as many rrtypes are unpacked as bits are set");
	for (int i = 0; i < nwant; i++)
		abs_check(set.rrtypes[i] == want[i], "unpacking lists the rrtypes of a union in increasing order");
	abs_reach("listed");
}
void drv_unpack_one(void) {
	uint8_t m[3];
	m[0] = abs_u8("window"); m[1] = abs_u8("length"); m[2] = abs_u8("bits");
	int r = rrtype_union_unpack(m, 3, &set);
	int ok = m[1] == 1;
	nwant = 0;
	if (ok) block(m[0], m + 2, 1);
	listed(r, ok);
}
void drv_unpack_two(void) {
	uint8_t m[7];
	m[0] = abs_u8("window"); m[1] = 2; m[2] = abs_u8("bits0") & 0x81; m[3] = abs_u8("bits1") & 0x22;
	m[4] = abs_u8("window2"); m[5] = abs_u8("length2"); m[6] = abs_u8("bits2") & 0x41;
	int r = rrtype_union_unpack(m, 7, &set);
	int ok = m[5] == 1 && m[4] > m[0];
	nwant = 0;
	if (ok) { block(m[0], m + 2, 2); block(m[4], m + 6, 1); }
	listed(r, ok);
}
void drv_unpack_trailing(void) {
	uint8_t m[4];
	m[0] = abs_u8("window"); m[1] = abs_u8("length"); m[2] = abs_u8("bits") & 0x18; m[3] = abs_u8("more") & 0x81;
	int r = rrtype_union_unpack(m, 4, &set);
	int ok = m[1] == 2;
	nwant = 0;
	if (ok) block(m[0], m + 2, 2);
	listed(r, ok);
}
/* 32 bytes of one window: the highest rrtypes */
void drv_unpack_full(void) {
	uint8_t m[34];
	memset(m, 0, sizeof m);
	m[0] = abs_u8("window"); m[1] = 32; m[2 + 31] = abs_u8("last") & 0x83;
	int r = rrtype_union_unpack(m, 34, &set);
	abs_check(r == !!(m[33] & 0x80) + !!(m[33] & 2) + !!(m[33] & 1), "a full block lists its rrtypes");
	if (m[33] & 1) abs_check(set.rrtypes[r - 1] == (m[0] << 8) + 255, "the last bit is rrtype 255 of the window");
}
