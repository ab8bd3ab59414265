package props

import (
	"crypto/tls"
	"hash/fnv"
	"io"
	"net/http"
	"net/http/httptest"
)

// noiseHeaders are request headers that clients and proxies send and that the
// framework gives no meaning to: whatever they say, nothing may change.
var noiseHeaders = [][2]string{
	{"X-Forwarded-For", "10.0.0.1, 192.0.2.7"},
	{"X-Forwarded-Proto", "https"},
	{"X-Forwarded-Proto", "http"},
	{"X-Forwarded-Host", "evil.test"},
	{"X-Forwarded-Prefix", "/api"},
	{"X-Forwarded-Port", "443"},
	{"X-Forwarded-Ssl", "on"},
	{"X-Forwarded-Uri", "/admin"},
	{"Front-End-Https", "on"},
	{"X-Url-Scheme", "https"},
	{"Forwarded", "for=192.0.2.60;proto=https;host=evil.test"},
	{"X-Real-Ip", "127.0.0.1"},
	{"X-Http-Method-Override", "DELETE"},
	{"X-Http-Method-Override", "GET"},
	{"X-Http-Method", "PUT"},
	{"X-Method-Override", "POST"},
	{"X-Original-Url", "/admin"},
	{"X-Rewrite-Url", "/a"},
	{"X-Original-Host", "evil.test"},
	{"X-Requested-With", "XMLHttpRequest"},
	{"X-Debug", "1"},
	{"X-Request-Id", "c0ffee"},
	{"Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"},
	{"Accept", "application/json"},
	{"Accept", "text/html,application/xhtml+xml;q=0.9,*/*;q=0.8"},
	{"Accept", "text/plain;q=0"},
	{"Accept-Language", "ro-RO,ro;q=0.9"},
	{"Accept-Charset", "utf-16"},
	{"Cache-Control", "no-cache"},
	{"Cache-Control", "no-transform"},
	{"Pragma", "no-cache"},
	{"Dnt", "1"},
	{"Save-Data", "on"},
	{"Upgrade-Insecure-Requests", "1"},
	{"Sec-Fetch-Site", "cross-site"},
	{"Sec-Fetch-Mode", "navigate"},
	{"Purpose", "prefetch"},
	{"Via", "1.1 proxy"},
	{"Max-Forwards", "0"},
	{"Referer", "http://evil.test/"},
	{"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)"},
	{"User-Agent", "curl/8"},
	{"From", "a@b.test"},
	{"Warning", "199 - x"},
	{"Priority", "u=1, i"},
	{"Te", "trailers"},
	{"Prefer", "return=minimal"},
	{"Authorization", "Basic YTpi"},
	{"Authorization", "Bearer x"},
	{"Cookie", "session=1; session=2; a=b"},
	{"Sec-Purpose", "prefetch;prerender"},
	{"Sec-Gpc", "1"},
	{"Sec-Ch-Ua-Mobile", "?1"},
	{"X-Correlation-Id", "1"},
	{"X-Api-Version", "2"},
	{"X-User", "admin"},
	{"X-Remote-User", "admin"},
	{"X-Forwarded-User", "admin"},
	{"X-Original-Method", "DELETE"},
	{"X-Method-Override", "head"},
	{"Content-Language", "de"},
	{"Idempotency-Key", "1"},
	{"Early-Data", "1"},
}

// noise adds up to three such headers, decided by the key alone.
func noise(h http.Header, key ...string) {
	f := fnv.New64a()
	for _, k := range key {
		_, _ = f.Write([]byte(k))
	}
	x := f.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	for n := x % 5; n > 1; n-- {
		x = x*6364136223846793005 + 1442695040888963407
		e := noiseHeaders[(x>>33)%uint64(len(noiseHeaders))]
		if _, ok := h[e[0]]; !ok {
			h[e[0]] = []string{e[1]}
		}
	}
}

// noiseHosts and noisePeers are names of the site and addresses of clients
// that have no meaning either.
var noiseHosts = []string{"localhost", "localhost:8080", "127.0.0.1:80", "[::1]:443", "EXAMPLE.com", "example.com:443", "xn--e1afmkfd.test", "a.internal", ""}
var noisePeers = []string{"127.0.0.1:1", "[::1]:65535", "10.1.2.3:80", "192.168.0.9:443", "@", "", "[fe80::1%25eth0]:9"}

// newRequest is httptest.NewRequest with noise.
func newRequest(method, target string, body io.Reader, key ...string) *http.Request {
	q := httptest.NewRequest(method, target, body)
	key = append(key, method, target)
	noise(q.Header, key...)
	f := fnv.New64a()
	for _, k := range key {
		_, _ = f.Write([]byte(k))
	}
	x := f.Sum64() * 0x9e3779b97f4a7c15
	if x>>60 < 4 && q.URL.Host == "" {
		q.Host = noiseHosts[(x>>20)%uint64(len(noiseHosts))]
	}
	if x>>56&15 < 4 {
		q.RemoteAddr = noisePeers[(x>>30)%uint64(len(noisePeers))]
	}
	noiseProto(q, x>>40)
	return q
}

// noiseProto gives the request one of the protocol versions, in the clear or
// not. Where they have a meaning (server-sent events, CORS, HSTS), the workload
// sets them again.
func noiseProto(q *http.Request, x uint64) {
	switch x & 15 {
	case 0:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/1.0", 1, 0
	case 1, 2:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
	case 3:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/3.0", 3, 0
	}
	if x>>4&7 == 0 {
		q.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "x.test"}
	}
}
