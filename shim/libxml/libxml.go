// Package libxml is a stand-in for github.com/amarin/libxml v0.1.2, which is not present in the sandbox.
package libxml

import (
	"encoding/xml"
	"errors"
	"io"
	"os"
)

// TokenProcessor receives the tokens of an XML document in document order.
type TokenProcessor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessEndElement(element xml.EndElement) error
	ProcessCharData(data xml.CharData) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(inst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

// ParseXMLFile feeds the tokens of the named file to the processor and stops at its first error.
func ParseXMLFile(filePath string, p TokenProcessor) error {
	file, err := os.Open(filePath)
	if err != nil {
		return err
	}
	defer func() { _ = file.Close() }()

	dec := xml.NewDecoder(file)

	for {
		token, err := dec.Token()
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		if err = Dispatch(token, p); err != nil {
			return err
		}
	}
}

// Dispatch hands one token to the processor.
func Dispatch(token xml.Token, p TokenProcessor) error {
	switch t := token.(type) {
	case xml.StartElement:
		return p.ProcessStartElement(t)
	case xml.EndElement:
		return p.ProcessEndElement(t)
	case xml.CharData:
		return p.ProcessCharData(t)
	case xml.Comment:
		return p.ProcessComment(t)
	case xml.ProcInst:
		return p.ProcessProcInst(t)
	case xml.Directive:
		return p.ProcessDirective(t)
	}

	return nil
}
