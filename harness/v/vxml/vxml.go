// Package vxml is a stand-in for the XML reader: the harness says which tokens a file consists of.
package vxml

import (
	"encoding/xml"
	"errors"

	"verif.test/v/sym"
)

// ErrSyntax is the error of malformed documents.
var ErrSyntax = errors.New("XML syntax error")

// Parse gives the tokens of a document and the error which ends it, nil for a well-formed one.
var Parse func(data []byte) ([]xml.Token, error)

func init() {
	sym.Reset = append(sym.Reset, func() { Parse = nil })
}

// Start makes a start tag with attributes given as name and value.
func Start(name string, attrs ...string) xml.Token {
	e := xml.StartElement{Name: xml.Name{Local: name}}
	for i := 0; i+1 < len(attrs); i += 2 {
		e.Attr = append(e.Attr, xml.Attr{Name: xml.Name{Local: attrs[i]}, Value: attrs[i+1]})
	}
	return e
}

// End makes an end tag.
func End(name string) xml.Token { return xml.EndElement{Name: xml.Name{Local: name}} }

// Text makes a text.
func Text(s string) xml.Token { return xml.CharData(s) }
