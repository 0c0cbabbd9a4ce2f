package main

// library functions that gv/lib.go stands for
var redirects = map[string]string{
	"strings.Index":                        "LibIndex",
	"internal/stringslite.Index":           "LibIndex",
	"strings.LastIndex":                    "LibLastIndex",
	"internal/bytealg.IndexByteString":     "LibIndexByteString",
	"internal/bytealg.IndexByte":           "LibIndexByte",
	"internal/bytealg.LastIndexByteString": "LibLastIndexByteString",
	"internal/bytealg.CountString":         "LibCountString",
	"strings.IndexByte":                    "LibIndexByteString",
	"strings.LastIndexByte":                "LibLastIndexByteString",
	"net.SplitHostPort":                    "LibSplitHostPort",
	"net.JoinHostPort":                     "LibJoinHostPort",
	"net.Dial":                             "LibDial",
	"net.Listen":                           "LibListen",
	"context.WithCancel":                   "LibWithCancel",
	"context.WithTimeout":                  "LibWithTimeout",
	"crypto/tls.Client":                    "LibTLSClient",
	"crypto/tls.Server":                    "LibTLSServer",
	"(*crypto/tls.Conn).Handshake":         "LibTLSHandshake",
	"(*crypto/tls.Conn).HandshakeContext":  "LibTLSHandshakeContext",
	"(*crypto/tls.Conn).Write":             "LibTLSWrite",
	"(*crypto/tls.Conn).Read":              "LibTLSRead",
	"(*crypto/tls.Conn).Close":             "LibTLSClose",
	"(*crypto/tls.Conn).LocalAddr":         "LibTLSLocalAddr",
	"(*crypto/tls.Conn).RemoteAddr":        "LibTLSRemoteAddr",
	"(*crypto/tls.Conn).SetDeadline":       "LibTLSSetDeadline",
	"(*crypto/tls.Conn).SetReadDeadline":   "LibTLSSetDeadline",
	"(*crypto/tls.Conn).SetWriteDeadline":  "LibTLSSetDeadline",
	"(*crypto/tls.Conn).NetConn":           "LibTLSNetConn",
}
