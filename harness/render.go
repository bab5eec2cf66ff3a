package main

import (
	"encoding/json"
	"fmt"
	stdimage "image"
	stdcolor "image/color"
	"math"
	"math/rand"
	"strings"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
)

// rdScenario is a call of the renderer, or a conversion of an image.
type rdScenario struct {
	Kind   string     `json:"kind"` // render, flat, conv
	Poly   bool       `json:"poly,omitempty"`
	W      int        `json:"w"`
	H      int        `json:"h"`
	Pic    string     `json:"pic,omitempty"`
	PSd    int64      `json:"psd"`
	Shapes [][][2]int `json:"sh,omitempty"`
	Img    string     `json:"img,omitempty"`
	Min    [2]int     `json:"min,omitempty"`
	Sub    [4]int     `json:"sub,omitempty"` // further pixels to the left, above, to the right and below
}

// rendered is the colour and vertices of a result.
type rendered struct {
	v []normgeom.NormPoint
	c color.RGB
}

func renderShapes(sc rdScenario, pic image.Data) (out []rendered) {
	if sc.Poly {
		var ps []geom.Polygon
		for _, s := range sc.Shapes {
			var p geom.Polygon
			for _, v := range s {
				p.Points = append(p.Points, geom.Point{X: v[0], Y: v[1]})
			}
			ps = append(ps, p)
		}
		for _, d := range render.PolygonsOnImage(ps, pic) {
			out = append(out, rendered{d.Polygon.Points, d.Color})
		}
		return
	}
	var ts []geom.Triangle
	for _, s := range sc.Shapes {
		ts = append(ts, toTri(s[0], s[1], s[2]))
	}
	for _, d := range render.TrianglesOnImage(ts, pic) {
		t := d.Triangle
		out = append(out, rendered{t.Points[:], d.Color})
	}
	return
}

func fanOf(v [][2]int, poly bool) []geom.Triangle {
	if poly {
		return fan(v)
	}
	return []geom.Triangle{toTri(v[0], v[1], v[2])} // the lines don't depend on the order
}

func intOf(v float64) int {
	r := math.Round(v)
	if !(math.Abs(r) < 2e9) {
		return -2000000000
	}
	return int(r)
}

func (sc rdScenario) encode(o rendered, scale float64) M {
	v := [][2]int{}
	for _, p := range o.v {
		v = append(v, [2]int{intOf(p.X * float64(sc.W) * 1024), intOf(p.Y * float64(sc.H) * 1024)})
	}
	return M{"v": v, "c": [3]int{intOf(o.c.R * scale), intOf(o.c.G * scale), intOf(o.c.B * scale)}}
}

// shown renders the shapes; the data is that of the picture.
func (sc rdScenario) shown(pic *picture, data image.Data) (ev M, bad bool) {
	flat := sc.Kind == "flat"
	out := renderShapes(sc, data)
	if len(out) != len(sc.Shapes) {
		bad = true
	}
	sh, os := []M{}, []M{}
	for i, v := range sc.Shapes {
		ls := [][][3]int{}
		n := 0
		var sum [3]int
		add := func(c [3]int) {
			n++
			for k := range c {
				sum[k] += c[k]
			}
		}
		for _, t := range fanOf(v, sc.Poly) {
			r := &runs{}
			if flat {
				break
			}
			rasterize.DDATriangle(t, r.pixel)
			ls = append(ls, none(r.l))
			a, b, c := t.Points[0], t.Points[1], t.Points[2]
			if nonDegenerate(t) && !exactCover([3][2]int{{a.X, a.Y}, {b.X, b.Y}, {c.X, c.Y}}, r.l) {
				bad = true
			}
			for _, s := range r.l {
				for x := s[0]; x < s[1]; x++ {
					if x >= 0 && x < sc.W && s[2] >= 0 && s[2] < sc.H {
						add(pic.c[s[2]*sc.W+x])
					} else {
						bad = true
					}
				}
			}
		}
		if flat {
			n, sum = 1, pic.c[0]
		}
		if n == 0 {
			for _, p := range v {
				x, y := p[0], p[1]
				if x > sc.W-1 {
					x = sc.W - 1
				}
				if y > sc.H-1 {
					y = sc.H - 1
				}
				add(pic.c[y*sc.W+x])
			}
		}
		sh = append(sh, M{"v": v, "l": ls, "n": n})
		if i >= len(out) {
			continue
		}
		o := out[i]
		if len(o.v) != len(v) {
			bad = true
		} else {
			for j, p := range o.v {
				if math.Abs(p.X*float64(sc.W)-float64(v[j][0])) > 1e-6 || math.Abs(p.Y*float64(sc.H)-float64(v[j][1])) > 1e-6 {
					bad = true
				}
			}
		}
		for k, c := range []float64{o.c.R, o.c.G, o.c.B} {
			if !(math.Abs(c*255*float64(n)-float64(sum[k])) < 0.1) {
				bad = true
			}
		}
		scale := 255 * 8 * float64(n)
		if flat {
			scale = 255 * 1024
		}
		os = append(os, sc.encode(o, scale))
	}
	for i := len(sc.Shapes); i < len(out); i++ {
		os = append(os, sc.encode(out[i], 1))
	}
	return M{"e": sc.Kind, "sh": sh, "out": os}, bad
}

func runRender(sc rdScenario) (tr M, bad bool) {
	pic := makePicture(sc.Pic, sc.W, sc.H, sc.PSd)
	if pic.u != 255 {
		for i := range pic.c {
			for k := range pic.c[i] {
				pic.c[i][k] = pic.c[i][k]*200 + 55*(k%2)
			}
		}
		pic.u = 255
	}
	var ev M
	ev, bad = sc.shown(pic, pic)
	tr = M{"w": sc.W, "h": sc.H, "t": []M{ev}}
	if sc.Kind == "flat" {
		ev["c"] = pic.c[0]
		tr["img"] = [][]int{}
		return
	}
	img := [][]int{}
	for y := 0; y < sc.H; y++ {
		row := []int{}
		for x := 0; x < sc.W; x++ {
			c := pic.c[y*sc.W+x]
			row = append(row, c[0]<<16|c[1]<<8|c[2])
		}
		img = append(img, row)
	}
	tr["img"] = img
	return
}

// odd is an image of a kind of its own.
type odd struct {
	r stdimage.Rectangle
	s int64
}

func (o odd) ColorModel() stdcolor.Model { return stdcolor.NRGBA64Model }
func (o odd) Bounds() stdimage.Rectangle { return o.r }
func (o odd) At(x, y int) stdcolor.Color {
	if !(stdimage.Point{X: x, Y: y}).In(o.r) {
		return stdcolor.RGBA{1, 2, 3, 4}
	}
	r := rand.New(rand.NewSource(o.s + int64(x)*1000003 + int64(y)*7919))
	return stdcolor.NRGBA64{uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32()) | 0x8000}
}

var imgKinds = []string{"rgba", "rgba64", "nrgba", "nrgba64", "alpha", "alpha16", "gray", "gray16", "cmyk", "paletted",
	"ycbcr0", "ycbcr1", "ycbcr2", "ycbcr3", "ycbcr4", "ycbcr5", "nycbcra", "odd"}

// makeImage returns an image of the scenario's kind and size.
func (sc rdScenario) makeImage() stdimage.Image {
	rng := rand.New(rand.NewSource(sc.PSd))
	s := sc.Sub
	in := stdimage.Rect(sc.Min[0], sc.Min[1], sc.Min[0]+sc.W, sc.Min[1]+sc.H)
	r := stdimage.Rect(in.Min.X-s[0], in.Min.Y-s[1], in.Max.X+s[2], in.Max.Y+s[3])
	fill := func(b []uint8) {
		mode := rng.Intn(3)
		for i := range b {
			b[i] = uint8(rng.Intn(256))
			if mode == 1 && rng.Intn(2) == 0 {
				b[i] = []uint8{0, 1, 127, 128, 254, 255}[rng.Intn(6)]
			}
		}
	}
	any := s != [4]int{}
	switch sc.Img {
	case "rgba":
		m := stdimage.NewRGBA(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "rgba64":
		m := stdimage.NewRGBA64(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "nrgba":
		m := stdimage.NewNRGBA(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "nrgba64":
		m := stdimage.NewNRGBA64(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "alpha":
		m := stdimage.NewAlpha(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "alpha16":
		m := stdimage.NewAlpha16(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "gray":
		m := stdimage.NewGray(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "gray16":
		m := stdimage.NewGray16(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "cmyk":
		m := stdimage.NewCMYK(r)
		fill(m.Pix)
		if any {
			return m.SubImage(in)
		}
		return m
	case "paletted":
		var p stdcolor.Palette
		n := 1 + rng.Intn(20)
		if rng.Intn(4) == 0 {
			n = 256
		}
		for i := 0; i < n; i++ {
			p = append(p, []stdcolor.Color{
				stdcolor.RGBA{uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256)), 255},
				stdcolor.NRGBA{uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256))},
				stdcolor.Gray16{uint16(rng.Uint32())}}[rng.Intn(3)])
		}
		m := stdimage.NewPaletted(r, p)
		for i := range m.Pix {
			m.Pix[i] = uint8(rng.Intn(n))
		}
		if any {
			return m.SubImage(in)
		}
		return m
	case "nycbcra":
		m := stdimage.NewNYCbCrA(r, stdimage.YCbCrSubsampleRatio(rng.Intn(6)))
		fill(m.Y)
		fill(m.Cb)
		fill(m.Cr)
		fill(m.A)
		if any {
			return m.SubImage(in)
		}
		return m
	case "odd":
		return odd{in, sc.PSd}
	default:
		m := stdimage.NewYCbCr(r, stdimage.YCbCrSubsampleRatio(sc.Img[5]-'0'))
		fill(m.Y)
		fill(m.Cb)
		fill(m.Cr)
		if any {
			return m.SubImage(in)
		}
		return m
	}
}

func runConv(sc rdScenario) (tr M, bad bool) {
	m := sc.makeImage()
	b := m.Bounds()
	if b.Dx() != sc.W || b.Dy() != sc.H {
		fmt.Println("harness error: size of", sc)
	}
	var data image.Data = image.ToData(m)
	w, h := data.Size()
	src, out := [][3]int{}, [][3]int{}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, _ := m.At(x, y).RGBA()
			src = append(src, [3]int{int(r), int(g), int(bl)})
		}
	}
	bad = w != b.Dx() || h != b.Dy()
	if !bad {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c := data.RGBAt(x, y)
				for k, v := range []float64{c.R, c.G, c.B} {
					if !(math.Abs(v*255-float64(src[y*w+x][k]>>8)) < 1e-9) {
						bad = true
					}
				}
				out = append(out, [3]int{intOf(c.R * 255 * 1024), intOf(c.G * 255 * 1024), intOf(c.B * 255 * 1024)})
			}
		}
	}
	if len(src) > 20000 { // Only some places, of which the wrong ones come first
		at, s, o := [][2]int{}, [][3]int{}, [][3]int{}
		for _, wrong := range []bool{true, false} {
			for i := 0; i < len(out) && len(at) < 400; i++ {
				w := false
				for k, v := range out[i] {
					w = w || v != 1024*(src[i][k]>>8)
				}
				if w == wrong {
					at, s, o = append(at, [2]int{i % b.Dx(), i / b.Dx()}), append(s, src[i]), append(o, out[i])
				}
			}
		}
		tr = M{"w": sc.W, "h": sc.H, "img": [][]int{},
			"t": []M{{"e": "convs", "w": w, "h": h, "sw": b.Dx(), "sh": b.Dy(), "at": at, "src": s, "out": o}}}
		return
	}
	tr = M{"w": sc.W, "h": sc.H, "img": [][]int{},
		"t": []M{{"e": "conv", "w": w, "h": h, "sw": b.Dx(), "sh": b.Dy(), "src": src, "out": out}}}
	return
}

func runRd(sc rdScenario) (tr M, bad bool) {
	why := guard(func() {
		if sc.Kind == "conv" {
			tr, bad = runConv(sc)
		} else {
			tr, bad = runRender(sc)
		}
	}, 60*time.Second)
	if why != "" {
		tr, bad = M{"w": sc.W, "h": sc.H, "img": [][]int{}, "t": []M{{"e": "abort", "why": why}}}, true
	}
	b, _ := json.Marshal(sc)
	tr["k"], tr["sc"] = 1, string(b)
	return
}

var pics = []string{"noise", "noise", "bright", "gradient", "blobs", "sparse", "const"}

func convScenario(rng *rand.Rand, small bool) rdScenario {
	m := 10
	if !small {
		m = 80
	}
	sc := rdScenario{Kind: "conv", W: 1 + rng.Intn(m), H: 1 + rng.Intn(m), PSd: rng.Int63(), Img: imgKinds[rng.Intn(len(imgKinds))]}
	if !small && rng.Intn(80) == 0 { // large, wide or tall
		switch rng.Intn(3) {
		case 0:
			sc.W, sc.H = 100+rng.Intn(500), 100+rng.Intn(500)
		case 1:
			sc.W, sc.H = 200+rng.Intn(70000), 1+rng.Intn(3)
		default:
			sc.W, sc.H = 1+rng.Intn(3), 200+rng.Intn(70000)
		}
	}
	if rng.Intn(2) == 0 {
		sc.Min = [2]int{rng.Intn(41) - 20, rng.Intn(41) - 20}
		if !small && rng.Intn(4) == 0 {
			sc.Min = [2]int{rng.Intn(200001) - 100000, rng.Intn(200001) - 100000}
		}
	}
	if rng.Intn(2) == 0 {
		for i := range sc.Sub {
			sc.Sub[i] = rng.Intn(5)
		}
	}
	if strings.Contains(sc.Img, "ycbcr") { // the standard library doesn't support negative places in these
		for i, v := range sc.Min {
			sc.Min[i] = sc.Sub[i] + ((v+20)%23+23)%23
		}
	}
	return sc
}

func renderScenario(rng *rand.Rand, small bool) rdScenario {
	m := []int{3, 8, 20, 30}[rng.Intn(4)]
	if !small && rng.Intn(2) == 0 {
		m = []int{60, 200, 400}[rng.Intn(3)]
	}
	w, h := 1+rng.Intn(m), 1+rng.Intn(m)
	if !small && rng.Intn(6) == 0 { // wide or tall
		w, h = 250+rng.Intn(3000), 1+rng.Intn(6)
		if rng.Intn(2) == 0 {
			w, h = h, w
		}
	}
	sc := rdScenario{Kind: "render", Poly: rng.Intn(2) == 0, W: w, H: h, Pic: pics[rng.Intn(len(pics))], PSd: rng.Int63()}
	src := pointSource(pointKinds[rng.Intn(len(pointKinds))], w, h, rng)
	get := func() [2]int {
		p := src()
		switch rng.Intn(8) {
		case 0:
			p = pt{rng.Intn(w + 1), rng.Intn(h + 1)}
		case 1:
			p.x = w
		case 2:
			p.y = h
		}
		return [2]int{p.x, p.y}
	}
	many := rng.Intn(40) == 0
	switch rng.Intn(3) {
	case 0: // shapes as they come
		n := rng.Intn(6)
		if many {
			n = 200 + rng.Intn(1500)
		}
		for ; n > 0; n-- {
			k := 3
			if sc.Poly {
				k = 1 + rng.Intn(7)
			}
			var v [][2]int
			for i := 0; i < k; i++ {
				v = append(v, get())
			}
			if k > 1 && rng.Intn(6) == 0 {
				v[k-1] = v[0]
			}
			sc.Shapes = append(sc.Shapes, v)
		}
	default: // those of points
		n := 1 + rng.Intn(14)
		if !small {
			n = 1 + rng.Intn(80)
			if many {
				n = 200 + rng.Intn(2000)
			}
		}
		g := group(unitPoints(rng, n, w, h, src))
		if rng.Intn(2) == 0 {
			g = append(g, normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 1}}...)
		}
		why := guard(func() {
			if sc.Poly {
				for _, p := range polygonation.Polygonate(g, w, h) {
					var v [][2]int
					for _, q := range p.Points {
						v = append(v, [2]int{q.X, q.Y})
					}
					sc.Shapes = append(sc.Shapes, v)
				}
			} else {
				for _, t := range triangulation.Triangulate(g, w, h) {
					a, b, c := t.Points[0], t.Points[1], t.Points[2]
					sc.Shapes = append(sc.Shapes, [][2]int{{a.X, a.Y}, {b.X, b.Y}, {c.X, c.Y}})
				}
			}
		}, 20*time.Second)
		ok := why == ""
		for _, s := range sc.Shapes { // not this check's business
			for _, v := range s {
				ok = ok && v[0] >= 0 && v[1] >= 0 && v[0] <= w && v[1] <= h
			}
			ok = ok && len(s) > 0
		}
		if !ok {
			sc.Shapes = nil
		}
		if rng.Intn(3) == 0 {
			rng.Shuffle(len(sc.Shapes), func(i, j int) { sc.Shapes[i], sc.Shapes[j] = sc.Shapes[j], sc.Shapes[i] })
		}
	}
	return sc
}

func runRenders(o opts, s *sink) {
	if o.in != "" {
		eachScenario(o.in, func(b []byte) bool {
			var sc rdScenario
			if err := json.Unmarshal(b, &sc); err != nil {
				die(err)
			}
			tr, _ := runRd(sc)
			s.put(tr)
			return atomic.LoadInt32(&stuck) == 0
		})
		return
	}
	rng := rand.New(rand.NewSource(o.seed))
	bad := 0
	for i := 0; i < o.n+o.size && bad < 3 && atomic.LoadInt32(&stuck) == 0 && time.Now().Before(o.deadline); i++ {
		var sc rdScenario
		switch o.mode {
		case "conv":
			sc = convScenario(rng, i < o.n)
		case "flat": // large shapes
			w, h := 300+rng.Intn(1200), 300+rng.Intn(1200)
			sc = rdScenario{Kind: "flat", Poly: i%2 == 0, W: w, H: h, Pic: "const", PSd: rng.Int63()}
			sc.Shapes = [][][2]int{{{0, 0}, {w, 0}, {rng.Intn(w + 1), h}}, {{w, h}, {0, h}, {0, rng.Intn(h)}}}
			if sc.Poly {
				sc.Shapes[0] = [][2]int{{0, 0}, {w, 0}, {w, h}, {0, h}}
			}
		default:
			sc = renderScenario(rng, i < o.n)
		}
		tr, b := runRd(sc)
		s.count("calls", 1)
		if b {
			bad++
			s.count("suspicious", 1)
		}
		if i < o.n || b {
			s.put(tr)
		}
	}
}
