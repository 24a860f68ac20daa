package http

import (
	"io"
	rn "net"
	rh "net/http"
	"net/url"
	"simrt/simnet"
)

type (
	Client    = simnet.Client
	Transport = simnet.Transport
	Server    = simnet.Server
)

var (
	DefaultTransport rh.RoundTripper = &Transport{}
	DefaultClient                    = &Client{}
)

func ListenAndServe(addr string, h rh.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
func Serve(l rn.Listener, h rh.Handler) error { return (&Server{Handler: h}).Serve(l) }
func Get(u string) (*rh.Response, error)      { return DefaultClient.Get(u) }
func Post(u, ct string, b io.Reader) (*rh.Response, error) {
	return DefaultClient.Post(u, ct, b)
}
func PostForm(u string, d url.Values) (*rh.Response, error) { return DefaultClient.PostForm(u, d) }
