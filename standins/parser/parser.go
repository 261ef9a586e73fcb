// Package parser is a stand-in for vimagination.zapto.org/parser v1.0.0, which
// cannot be fetched offline: a tokeniser driven by state functions, and a
// parser over its tokens.
package parser // import "vimagination.zapto.org/parser"

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType represents the type of token being read. Negative values are
// reserved for this package.
type TokenType int

// Constants TokenError (-2) and TokenDone (-1).
const (
	TokenDone TokenType = -1 - iota
	TokenError
)

// Token represents data parsed from the stream.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc is the type that the worker types implement in order to be used by
// the Tokeniser.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Errors.
var (
	ErrNoState      = errors.New("no state")
	ErrUnknownError = errors.New("unknown error")
)

// Tokeniser is a state machine to generate tokens from an input.
type Tokeniser struct {
	data       string
	start, pos int
	Err        error
	state      TokenFunc
}

// NewStringTokeniser returns a Tokeniser which uses a string.
func NewStringTokeniser(str string) Tokeniser { return Tokeniser{data: str} }

// NewByteTokeniser returns a Tokeniser which uses a byte slice.
func NewByteTokeniser(data []byte) Tokeniser { return Tokeniser{data: string(data)} }

// NewReaderTokeniser returns a Tokeniser which uses an io.Reader.
func NewReaderTokeniser(r io.Reader) Tokeniser {
	b, _ := io.ReadAll(r)

	return NewByteTokeniser(b)
}

// TokeniserState allows the internal state of the Tokeniser to be set.
func (t *Tokeniser) TokeniserState(tf TokenFunc) { t.state = tf }

// GetToken runs the state machine and retrieves a single token and possible an
// error.
func (t *Tokeniser) GetToken() (Token, error) {
	tk := t.get()
	if tk.Type == TokenError {
		return tk, t.Err
	}

	return tk, nil
}

// GetError returns any error that has been generated by the Tokeniser.
func (t *Tokeniser) GetError() error { return t.Err }

func (t *Tokeniser) get() Token {
	if errors.Is(t.Err, io.EOF) {
		return Token{Type: TokenDone}
	}

	if t.state == nil {
		t.Err = ErrNoState
		t.state = (*Tokeniser).Error
	}

	var tk Token

	tk, t.state = t.state(t)
	if tk.Type == TokenError && errors.Is(t.Err, io.EOF) {
		t.Err = io.ErrUnexpectedEOF
	}

	return tk
}

func (t *Tokeniser) next() (rune, int) {
	if t.pos >= len(t.data) {
		return -1, 0
	}

	return utf8.DecodeRuneInString(t.data[t.pos:])
}

// Peek returns the next rune without advancing the read position.
func (t *Tokeniser) Peek() rune {
	r, _ := t.next()

	return r
}

// Get returns a string of everything that has been read so far and resets the
// string for the next round of parsing.
func (t *Tokeniser) Get() string {
	s := t.data[t.start:t.pos]
	t.start = t.pos

	return s
}

// Len returns the number of bytes that has been read since the last Get.
func (t *Tokeniser) Len() int { return t.pos - t.start }

// Accept returns true if the next character to be read is contained within the
// given string.
func (t *Tokeniser) Accept(chars string) bool {
	r, n := t.next()
	if r < 0 || !strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// AcceptRun reads from the string as long as the read character is in the
// given string, returning the rune that stopped the run.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for t.Accept(chars) {
	}

	return t.Peek()
}

// Except returns true if the next character to be read is not contained within
// the given string.
func (t *Tokeniser) Except(chars string) bool {
	r, n := t.next()
	if r < 0 || strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// ExceptRun reads from the string as long as the read character is not in the
// given string, returning the rune that stopped the run.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for t.Except(chars) {
	}

	return t.Peek()
}

// AcceptString attempts to accept each character from the given string, in
// order, returning the number of characters accepted.
func (t *Tokeniser) AcceptString(str string, caseInsensitive bool) int {
	n := 0

	for _, r := range str {
		s, w := t.next()
		if s < 0 || !(s == r || caseInsensitive && strings.EqualFold(string(s), string(r))) {
			return n
		}

		t.pos += w
		n += w
	}

	return n
}

// Done is a TokenFunc that is used to indicate that there are no more tokens to
// parse.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF

	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error represents an error state for the parser.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknownError
	}

	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

// Parser is a type used to get tokens, and phrases of tokens.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked *Token
}

// New creates a new Parser from the given Tokeniser.
func New(t Tokeniser) Parser { return Parser{Tokeniser: t} }

func (p *Parser) nextToken() Token {
	if p.peeked != nil {
		tk := *p.peeked
		p.peeked = nil

		return tk
	}

	return p.Tokeniser.get()
}

// Peek takes a look at the upcoming Token and returns it.
func (p *Parser) Peek() Token {
	tk := p.nextToken()
	p.peeked = &tk

	return tk
}

func (p *Parser) is(not bool, types []TokenType) bool {
	tk := p.Peek()

	if not && tk.Type < 0 {
		return false
	}

	for _, t := range types {
		if tk.Type == t {
			if !not {
				p.tokens = append(p.tokens, p.nextToken())
			}

			return !not
		}
	}

	if not {
		p.tokens = append(p.tokens, p.nextToken())
	}

	return not
}

// Accept will accept a token with one of the given types, returning true if one
// is read and false otherwise.
func (p *Parser) Accept(types ...TokenType) bool { return p.is(false, types) }

// Except will Accept a token that is not one of the types given.
func (p *Parser) Except(types ...TokenType) bool { return p.is(true, types) }

// AcceptRun will keep Accepting tokens as long as they match one of the given
// types, returning the type of the token that stopped the run.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
	for p.Accept(types...) {
	}

	return p.Peek().Type
}

// ExceptRun will keep Accepting tokens as long as they do not match one of the
// given types, returning the type of the token that stopped the run.
func (p *Parser) ExceptRun(types ...TokenType) TokenType {
	for p.Except(types...) {
	}

	return p.Peek().Type
}

// Get retrieves a slice of the Tokens that have been read so far.
func (p *Parser) Get() []Token {
	tks := p.tokens
	p.tokens = nil

	return tks
}

// Len returns how many tokens have been read.
func (p *Parser) Len() int { return len(p.tokens) }
