// Reference formulation of the samplers, compared with the code by the analyzer; never
// compiled or run.
package csprng

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/sha512"
	"math"
	"slices"
)

func specAssume(c bool)       {}
func specDefine(x int, y int) {}

func codeSampleN(s *UniformSampler, n uint64) uint64 { return s.SampleN(n) }

// specSampleN rejects what lies beyond the largest multiple of n.
// through: math/csprng.UniformSampler.SampleN
func specSampleN(s *UniformSampler, n uint64) uint64 {
	r := s.Sample()
	for r >= math.MaxUint64-math.MaxUint64%n {
		r = s.Sample()
	}
	return r % n
}

func codeSampleFloat(s *UniformSampler) float64 { return s.SampleFloat() }

// specSampleFloat puts 52 random bits behind the binary point.
// through: math/csprng.UniformSampler.SampleFloat
func specSampleFloat(s *UniformSampler) float64 {
	r := s.Sample() % (1 << 52)
	return math.Float64frombits(r|(1075<<52))/(1<<52) - 1
}

func codeUniSample(s *UniformSampler) uint64 {
	specAssume(s.ptr <= 8192)
	return s.Sample()
}

// specUniSample takes the next eight bytes of the buffer, renewed when used up.
// through: math/csprng.UniformSampler.Sample
func specUniSample(s *UniformSampler) uint64 {
	specAssume(s.ptr <= 8192)
	if s.ptr == 8192 {
		s.prng.XORKeyStream(s.buf[:], s.buf[:])
		s.ptr = 0
	}
	r := uint64(0)
	for i := 0; i < 8; i++ {
		r |= uint64(s.buf[s.ptr+uint64(i)]) << (8 * i)
	}
	s.ptr += 8
	return r
}

func codeUniRead(s *UniformSampler, p []byte) (int, error) { return s.Read(p) }

func specUniRead(s *UniformSampler, p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	s.prng.XORKeyStream(p, p)
	return len(p), nil
}

func codeCDT(center, sigma float64) []uint64 { return computeCDT(center, sigma) }

func specCDT(center, sigma float64) []uint64 {
	hi := int64(math.Ceil(9 * sigma))
	t := make([]uint64, int(hi+hi+1))
	norm := math.Sqrt(2*math.Pi) * sigma
	cdf := 0.0
	for i := 0; i < int(hi+hi+1); i++ {
		x := float64(int64(i) - hi)
		cdf += math.Exp(-(x-center)*(x-center)/(2*sigma*sigma)) / norm
		t[i] = math.MaxUint64
		if cdf < 1 {
			t[i] = uint64(math.Round(cdf * math.Exp2(64)))
		}
	}
	return t
}

func codeCOSAC(s *COSACSampler, center, stdDev float64) int64 { return s.Sample(center, stdDev) }

// specCOSAC: zero with its exact weight first, otherwise a nonzero offset by rejection from the
// rounded distribution.
// draws: independent of each other
func specCOSAC(s *COSACSampler, center, stdDev float64) int64 {
	c := math.Round(center)
	f := c - center
	if s.baseSampler.SampleFloat() < math.Exp(-(f*f)/(2*stdDev*stdDev))/(math.Sqrt(2*math.Pi)*stdDev) {
		return int64(c)
	}
	for {
		y := stdDev * s.roundedSampler.normFloat()
		z := math.Round(y) - 1
		ok := z <= -0.5
		if s.baseSampler.Sample()&1 != 0 {
			z = math.Round(y) + 1
			ok = z >= 0.5
		}
		if ok && s.baseSampler.SampleFloat() < math.Exp(-((z+f)*(z+f)-y*y)/(2*stdDev*stdDev)) {
			return int64(z) + int64(c)
		}
	}
}

func codeNormal(s *RoundedGaussianSampler) float64 { return s.normFloat() }

// specNormal: Marsaglia and Tsang, with the layers' areas in kn, their widths in wn and the
// density at their borders in fn.
// through: math/csprng.RoundedGaussianSampler.normFloat
// draws: independent of each other
func specNormal(s *RoundedGaussianSampler) float64 {
	for {
		r := s.baseSampler.Sample()
		neg := r >= 1<<63
		layer := r % 128
		m := (r / 128) % (1 << 52)
		x := float64(int64((m^-(r>>63))+(r>>63))) * wn[layer]
		if m < kn[layer] {
			return x
		}
		if layer == 0 {
			for {
				u := -math.Log(s.baseSampler.SampleFloat()) * (1.0 / rn)
				v := -math.Log(s.baseSampler.SampleFloat())
				if v+v >= u*u {
					if neg {
						return -(u + rn)
					}
					return u + rn
				}
			}
		}
		if s.baseSampler.SampleFloat()*(fn[layer-1]-fn[layer]) < math.Exp(-0.5*x*x)-fn[layer] {
			return x
		}
	}
}

func codeRounded(s *RoundedGaussianSampler, center, stdDev float64) int64 {
	return s.Sample(center, stdDev)
}

func specRounded(s *RoundedGaussianSampler, center, stdDev float64) int64 {
	if stdDev <= 0 {
		panic("")
	}
	return int64(math.Round(s.normFloat()*stdDev + center))
}

func codeTwin(s *TwinCDTGaussianSampler, center float64) int64 { return s.Sample(center) }

// specTwin looks one uniform number up in the tables of the two neighbouring centers; where
// they disagree, the exact distribution function decides.
func specTwin(s *TwinCDTGaussianSampler, center float64) int64 {
	base := math.Floor(center)
	frac := center - base
	lo := int64(math.Floor(128*frac)) % 128
	hi := int64(math.Ceil(128*frac)) % 128
	u := s.baseSampler.Sample()
	a, on := slices.BinarySearch(s.tables[lo], u)
	if on {
		a--
	}
	b, on := slices.BinarySearch(s.tables[hi], u)
	if on {
		b--
	}
	if hi < lo {
		b++
	}
	z := a
	if a != b {
		cdf := 0.0
		norm := math.Sqrt(2*math.Pi) * s.stdDev
		for x := s.tailLo; x <= int64(a)+s.tailLo; x++ {
			d := float64(x) - frac
			cdf += math.Exp(-d*d/(2*s.stdDev*s.stdDev)) / norm
		}
		if float64(u)/math.Exp2(64) >= cdf {
			z = b
		}
	}
	return int64(z) + int64(base) + s.tailLo
}

func codeTwinCoset(s *TwinCDTGaussianSampler, center float64) float64 { return s.SampleCoset(center) }

func specTwinCoset(s *TwinCDTGaussianSampler, center float64) float64 {
	return center + float64(s.Sample(-center))
}

func codeTwinNew(stdDev float64) *TwinCDTGaussianSampler { return NewTwinCDTGaussianSampler(stdDev) }

func specTwinNew(stdDev float64) *TwinCDTGaussianSampler {
	s := &TwinCDTGaussianSampler{baseSampler: NewUniformSampler(), stdDev: stdDev}
	s.tailHi = int64(math.Ceil(9 * stdDev))
	s.tailLo = -s.tailHi
	for i := 0; i < 128; i++ {
		s.tables[i] = computeCDT(float64(i)/128, stdDev)
	}
	return s
}

func codeTwinCopy(s *TwinCDTGaussianSampler) *TwinCDTGaussianSampler { return s.SafeCopy() }

func specTwinCopy(s *TwinCDTGaussianSampler) *TwinCDTGaussianSampler {
	t := *s
	t.baseSampler = NewUniformSampler()
	return &t
}

func codeUniNew() *UniformSampler { return NewUniformSampler() }

// specUniNew: 256 bits from the operating system.
// through: math/csprng.NewUniformSampler math/csprng.NewUniformSamplerWithSeed
func specUniNew() *UniformSampler {
	seed := make([]byte, 32)
	if _, err := rand.Read(seed); err != nil {
		panic(err)
	}
	return NewUniformSamplerWithSeed(seed)
}

func codeUniSeed(seed []byte) *UniformSampler { return NewUniformSamplerWithSeed(seed) }

// specUniSeed: AES-256 in counter mode under the first 32 bytes of SHA-384 of the seed, from the
// counter in the last 16.
// through: math/csprng.NewUniformSamplerWithSeed
func specUniSeed(seed []byte) *UniformSampler {
	h := sha512.Sum384(seed)
	block, err := aes.NewCipher(h[:32])
	if err != nil {
		panic(err)
	}
	return &UniformSampler{prng: cipher.NewCTR(block, h[32:48]), ptr: 8192}
}

func codeGaussNew(seed []byte) (*RoundedGaussianSampler, *RoundedGaussianSampler, *COSACSampler) {
	return NewRoundedGaussianSampler(), NewRoundedGaussianSamplerWithSeed(seed), NewCOSACSampler()
}

func specGaussNew(seed []byte) (*RoundedGaussianSampler, *RoundedGaussianSampler, *COSACSampler) {
	a := &RoundedGaussianSampler{baseSampler: NewUniformSampler()}
	b := &RoundedGaussianSampler{baseSampler: NewUniformSamplerWithSeed(seed)}
	c := &RoundedGaussianSampler{baseSampler: NewUniformSampler()}
	return a, b, &COSACSampler{baseSampler: NewUniformSampler(), roundedSampler: c}
}

var _ = slices.Max[[]int]

// specTables: 128 layers of equal area v; fn[0] is the density at the top.
// of: init
func specTables() {
	v := rn*normal(rn) + normalIntegral(rn)
	var xn [128]float64
	xn[127] = rn
	for i := 126; i >= 1; i-- {
		xn[i] = normalInv(v/xn[i+1] + normal(xn[i+1]))
	}
	kn[0] = uint64((rn * normal(rn) / v) * (1 << 52))
	wn[0] = (v / normal(rn)) / (1 << 52)
	fn[0] = normal(0)
	for i := 1; i < 128; i++ {
		kn[i] = uint64((xn[i-1] / xn[i]) * (1 << 52))
		wn[i] = xn[i] / (1 << 52)
		fn[i] = normal(xn[i])
	}
}

func codeDensity(x float64) (float64, float64, float64) {
	return normal(x), normalIntegral(x), normalInv(x)
}

// specDensity: the normal density without its factor, its integral from x on, and its inverse.
func specDensity(x float64) (float64, float64, float64) {
	return math.Exp(-0.5 * x * x), math.Sqrt(math.Pi/2) * math.Erfc(x/math.Sqrt(2)), math.Sqrt(-2 * math.Log(x))
}
