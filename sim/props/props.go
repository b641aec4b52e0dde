// Package props holds the checks of the properties.
package props
