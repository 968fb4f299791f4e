// Package h holds the property harnesses.
package h

// Registry keeps the package non-empty.
const Registry = true
