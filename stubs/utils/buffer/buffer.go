// Package buffer is an offline stand-in for github.com/indigo-web/utils/buffer:
// one contiguous, size-limited arena, consumed segment by segment.
package buffer

type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

func New(initialSize, maxSize int) *Buffer {
	return &Buffer{memory: make([]byte, 0, initialSize), maxSize: maxSize}
}

func (b *Buffer) Append(elements []byte) (ok bool) {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}
	b.memory = append(b.memory, elements...)
	return true
}

func (b *Buffer) AppendByte(c byte) (ok bool) {
	if len(b.memory)+1 > b.maxSize {
		return false
	}
	b.memory = append(b.memory, c)
	return true
}

func (b *Buffer) SegmentLength() int { return len(b.memory) - b.begin }

func (b *Buffer) Preview() []byte { return b.memory[b.begin:] }

func (b *Buffer) Trunc(n int) {
	if seg := b.SegmentLength(); n > seg {
		n = seg
	}
	b.memory = b.memory[:len(b.memory)-n]
}

func (b *Buffer) Discard(n int) { b.Trunc(b.SegmentLength() - n) }

func (b *Buffer) Finish() []byte {
	segment := b.memory[b.begin:]
	b.begin = len(b.memory)
	return segment
}

func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
