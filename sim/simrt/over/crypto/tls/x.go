package tls

import (
	rt "crypto/tls"
	"simrt"
)

func LoadX509KeyPair(certFile, keyFile string) (rt.Certificate, error) {
	c, err := simrt.ReadFile(certFile)
	if err != nil {
		return rt.Certificate{}, err
	}
	k, err := simrt.ReadFile(keyFile)
	if err != nil {
		return rt.Certificate{}, err
	}
	return rt.X509KeyPair(c, k)
}
