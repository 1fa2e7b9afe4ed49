/* Declarations of the libwdns API that dnstable uses. Declarations only. */
#ifndef WDNS_H
#define WDNS_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#define WDNS_MAXLEN_NAME 255
#define WDNS_PRESLEN_NAME 1025
#define WDNS_CLASS_IN 1
#define WDNS_TYPE_A 1
#define WDNS_TYPE_NS 2
#define WDNS_TYPE_CNAME 5
#define WDNS_TYPE_SOA 6
#define WDNS_TYPE_PTR 12
#define WDNS_TYPE_MX 15
#define WDNS_TYPE_TXT 16
#define WDNS_TYPE_RP 17
#define WDNS_TYPE_AAAA 28
#define WDNS_TYPE_NXT 30
#define WDNS_TYPE_SRV 33
#define WDNS_TYPE_DNAME 39
#define WDNS_TYPE_DS 43
#define WDNS_TYPE_RRSIG 46
#define WDNS_TYPE_NSEC 47
#define WDNS_TYPE_DNSKEY 48
#define WDNS_TYPE_NSEC3 50
#define WDNS_TYPE_NSEC3PARAM 51
#define WDNS_TYPE_SVCB 64
#define WDNS_TYPE_HTTPS 65
#define WDNS_TYPE_DLV 32769
#define WDNS_TYPE_ANY 255
typedef enum {
	wdns_res_success, wdns_res_failure, wdns_res_invalid_compression_pointer,
	wdns_res_invalid_length_octet, wdns_res_invalid_opcode, wdns_res_invalid_rcode,
	wdns_res_len, wdns_res_malloc, wdns_res_name_len, wdns_res_name_overflow,
	wdns_res_out_of_bounds, wdns_res_overflow, wdns_res_parse_error, wdns_res_qdcount,
	wdns_res_unknown_opcode, wdns_res_unknown_rcode,
} wdns_res;
typedef struct { uint16_t len; uint8_t *data; } wdns_name_t;
typedef struct { uint16_t len; uint8_t data[]; } wdns_rdata_t;
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz);
wdns_res wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name);
size_t wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst);
char *wdns_rdata_to_str(const uint8_t *rdata, uint16_t rdlen, uint16_t rrtype, uint16_t rrclass);
const char *wdns_rrtype_to_str(uint16_t dns_rrtype);
uint16_t wdns_str_to_rrtype(const char *str);
wdns_res wdns_str_to_name(const char *str, wdns_name_t *name);
wdns_res wdns_str_to_name_case(const char *str, wdns_name_t *name);
void wdns_downcase_name(wdns_name_t *name);
size_t wdns_skip_name(const uint8_t **data, const uint8_t *eod);
const char *wdns_res_to_str(wdns_res res);
#endif
