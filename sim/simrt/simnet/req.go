package simnet

import (
	"bufio"
	"bytes"
	"fmt"
	"net/http"
)

// newReq serialises the request as the server reads it.
func newReq(req *http.Request, body []byte) *bufio.Reader {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", req.Method, req.URL.RequestURI(), req.URL.Host)
	req.Header.Write(&b)
	if len(body) > 0 || req.Method == "POST" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return bufio.NewReader(&b)
}
