// C01: P code against a bit by bit shift register implementation of IS-GPS-200.
#include "gp.hpp"
#include "GenXSequence.hpp"
#include "X1Sequence.hpp"
#include "X2Sequence.hpp"
#include "SVPCodeGen.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
using namespace std;
using namespace gpstk;
using pbt::G;

// ------------------------------------------------------------------ reference registers
// 12 stages, numbered 1..12; output is stage 12, the sum of the tapped stages enters stage 1
struct Reg
{
   int st[13]; vector<int> taps;
   Reg(const char* init, const vector<int>& t) : taps(t) { for (int i = 0; i < 12; i++) st[12 - i] = init[i] - '0'; }
   int out() const { return st[12]; }
   void step()
   {
      int s = 0;
      for (size_t i = 0; i < taps.size(); i++) s ^= st[taps[i]];
      for (int i = 12; i > 1; i--) st[i] = st[i - 1];
      st[1] = s;
   }
};
static vector<unsigned char> run(const char* init, const vector<int>& taps, size_t n)
{
   Reg r(init, taps);
   vector<unsigned char> v(n);
   for (size_t i = 0; i < n; i++) { v[i] = r.out(); r.step(); }
   return v;
}
// the polynomials and initial states of IS-GPS-200, 3.3.2.2
static const vector<unsigned char>& X1A() { static vector<unsigned char> v = run("001001001000", {6, 8, 11, 12}, 4092); return v; }
static const vector<unsigned char>& X1B() { static vector<unsigned char> v = run("010101010100", {1, 2, 5, 8, 9, 10, 11, 12}, 4093); return v; }
static const vector<unsigned char>& X2A() { static vector<unsigned char> v = run("100100100101", {1, 3, 4, 5, 7, 8, 9, 10, 11, 12}, 4092); return v; }
static const vector<unsigned char>& X2B() { static vector<unsigned char> v = run("010101010100", {2, 3, 4, 8, 9, 12}, 4093); return v; }
static const long E1 = 3750L * 4092, E2 = E1 + 37;             // lengths of the X1 and X2 periods in chips
static const long WEEKZ = 403200;
static const long EOW = E1 * WEEKZ - E2 * (WEEKZ - 1);         // chips of the last X2 period within the week
static int x1(long p)                                          // chip of an X1 period
{
   int a = X1A()[p % 4092];
   int b = p < 3749L * 4093 ? X1B()[p % 4093] : X1B()[4092];   // held for the last 343 chips
   return a ^ b;
}
static int x2(long p, bool last)                               // chip of an X2 period; last: the final one of the week
{
   int a = p < E1 ? X2A()[p % 4092] : X2A()[4091];
   int b = p < 3749L * 4093 ? X2B()[p % 4093] : X2B()[4092];
   if (last)                                                   // held from the last register end before the last X1A period ends
   {
      if (p >= EOW / 4092 * 4092) a = X2A()[4091];
      if (p >= EOW / 4093 * 4093) b = X2B()[4092];
   }
   return a ^ b;
}
// chip t (0-based) of the week of PRN
static int pchip(int prn, long t)
{
   long days = (prn - 1) / 37;
   if (prn < 1) days = 0;
   int i = prn - (int)days * 37;
   long n = E1 * WEEKZ;
   t = (t + days * 57600 * E1) % n;
   long u = t - i;
   int b = u < 0 ? 1 : x2(u % E2, u / E2 == WEEKZ - 1);        // before the first X2 chip: the held last state, which is 1
   return x1(t % E1) ^ b;
}
static void init()
{
   // another case in this process may have allocated it already
   try { X1Sequence s; } catch (gpstk::Exception&) { X1Sequence::allocateMemory(); }
   try { X2Sequence s; } catch (gpstk::Exception&) { X2Sequence::allocateMemory(); }
}

PROP(anchor, 1, 1, "the first chips of every PRN")
{
   // first 12 chips of each P code, octal, as tabulated in IS-GPS-200 (Table 3-Ia)
   static const int T[] = {04444, 04000, 04222, 04333, 04377, 04355, 04344, 04340, 04342, 04343};
   init();
   for (int prn = 1; prn <= 37; prn++)
   {
      CodeBuffer b(prn);
      SVPCodeGen s(prn, GPSWeekZcount(1500, 0));
      s.getCurrentSixSeconds(b);
      int ref = 0, got = 0;
      for (int k = 0; k < 12; k++) { ref = 2 * ref + pchip(prn, k); got = 2 * got + (int)b.getBit(k); }
      REQ_EQ(ref, T[std::min(prn, 10) - 1], pbt::strf("reference model, PRN %d", prn));
      REQ_EQ(got, T[std::min(prn, 10) - 1], pbt::strf("first 12 chips, PRN %d", prn));
   }
   REQ_EQ(EOW, 426637L, "chips of the last X2 period");
   REQ_EQ(EOW % 4092, 1069L, "X2A hold");
   REQ_EQ(EOW % 4093, 965L, "X2B hold");
   g.nontrivial();
}

PROP(register_bits, 60000, 1000000, "the 32 bits reach over the end of the sequence, or a changed length")
{
   int len = (int)g.range(33, 4200), delay = (int)g.below(4400 - len < 500 ? (4400 - len) + 1 : 500);
   unsigned st = (unsigned)g.bits(12), tap = (unsigned)g.bits(12);
   g << "init " << st << " taps " << tap << " len " << len << " delay " << delay;
   GenXSequence s(st, tap, len, delay);
   vector<unsigned char> ref;
   unsigned r = st;
   for (int i = 0; i < len; i++) { ref.push_back((r >> 11) & 1); int b = __builtin_popcount(r & tap) & 1; r = ((r << 1) & 0xFFF) | b; }
   for (int i = 0; i < delay; i++) ref.push_back(ref[len - 1]);
   int L = len; bool nt = false;
   for (int k = 0; k < 20; k++)
   {
      if (g.flag(0.2)) { L = g.flag() ? len + (int)g.below(delay + 1) : (int)g.range(32, len + delay); s.setLengthOfSequence(L); nt = true; }
      int i = g.flag(0.4) ? L - 1 - (int)g.below(40) : (int)g.below(L);
      if (i < 0) i = 0;
      if (g.flag(0.1)) i += L;
      uint32_t want = 0;
      for (int b = 0; b < 32; b++) want = (want << 1) | ref[(i % L + b) % L];
      uint32_t got = s[i];
      REQUIRE(got == want, "bits at " << i << " of length " << L << ": " << hex << got << " wanted " << want);
      if (i % L + 32 > L) nt = true;
   }
   if (nt) g.nontrivial();
}

PROP(x_sequences, 8000, 80000, "a word over the end of a register cycle, of an epoch or of the array")
{
   init();
   X1Sequence s1; X2Sequence s2;
   bool eow = g.flag();
   s2.setEOWX2Epoch(eow);
   if (g.flag(0.2)) { s2.setEOWX2Epoch(!eow); s2.setEOWX2Epoch(eow); }
   bool nt = false;
   for (int k = 0; k < 200; k++)
   {
      // X1 words
      long w;
      int how = g.below(4);
      if (how == 0) w = (long)g.below(NUM_6SEC_WORDS);
      else if (how == 1) { w = (long)(E1 * g.range(0, 4)) / 32 + g.range(-14, 3); nt = true; }
      else w = (long)(g.flag() ? 4092 : 4093) * (long)g.below(14990) / 32 + g.range(-1, 1);
      w = std::min(std::max(w, 0L), NUM_6SEC_WORDS - 1);
      uint32_t want = 0;
      for (int b = 0; b < 32; b++) want = (want << 1) | x1((w * 32 + b) % E1);
      REQUIRE(s1[w] == want, "X1 word " << w << ": " << hex << s1[w] << " wanted " << want);
      const X1Sequence& c1 = s1;
      REQ_EQ(c1[w], want, "X1 word of a const sequence");
      // X2 bits at any position from -37
      long i;
      how = g.below(6);
      if (how == 0) i = g.range(-37L, MAX_X2_TEST - 1);
      else if (how == 1) { i = E2 * g.range(0, 4) - g.range(0, 500); nt = true; }
      else if (how == 2) { i = E2 * g.range(0, 3) + g.range(0, 500); nt = true; }
      else if (how == 3) { i = MAX_X2_TEST - g.range(1, 70); nt = true; }
      else if (how == 4) { i = 3 * E2 + EOW - g.range(32, 1200); nt = true; }
      else i = E2 * g.range(0, 3) + (g.flag() ? 4092 : 4093) * (long)g.below(3749) - g.range(0, 32);
      i = std::min(std::max(i, -37L), MAX_X2_TEST - 1);
      want = 0; bool skip = false;
      for (int b = 0; b < 32; b++)
      {
         long p = i + b;
         int bit;
         if (p < 0) bit = 1;
         else
         {
            if (p >= MAX_X2_TEST) p -= MAX_X2_TEST;              // wraps to the beginning of the sequence
            if (eow && p >= 3 * E2 + EOW && p < 3 * E2 + EOW + 64) skip = true;   // after the end of the week
            bit = x2(p % E2, eow && p >= 3 * E2 && p < 3 * E2 + EOW);
         }
         want = (want << 1) | (uint32_t)bit;
      }
      if (skip) continue;
      uint32_t got = s2[i];
      REQUIRE(got == want, "X2 bits at " << i << (eow ? " (end of week)" : "") << ": " << hex << got << " wanted " << want);
   }
   if (nt) g.nontrivial();
}

static long zOf(const CommonTime& t) { return GPSWeekZcount(t).zcount; }
PROP(p_code, 2000, 20000, "any")
{
   init();
   int prn = g.weighted({6, 3, 1}) == 0 ? (int)g.range(1, 37) : (g.flag(0.9) ? (int)g.range(38, 210) : (int[]){1, 37, 38, 74, 75, 210}[g.below(6)]);
   int week = (int)g.range(0, 2500);
   long z4;
   switch (g.below(6))
   {
   case 0: z4 = 0; break;
   case 1: z4 = WEEKZ / 4 - 1; break;
   case 2: z4 = (WEEKZ / 4 - 1 - (long)((prn - 1) / 37) * 14400 + WEEKZ / 4) % (WEEKZ / 4); break;   // its own end of week
   case 3: z4 = (WEEKZ / 4 - (long)((prn - 1) / 37) * 14400) % (WEEKZ / 4); break;                   // its own beginning
   case 4: z4 = (long)g.below(7) * 14400 + (long)g.below(3); break;
   default: z4 = (long)g.below(WEEKZ / 4);
   }
   CommonTime start = GPSWeekZcount(week, (int)(4 * z4));
   double off = g.flag(0.6) ? 0.0 : g.flag() ? 1.5 * g.below(4) : 5.999 * g.unit();
   if (fabs(off / 1.5 - floor(off / 1.5 + 0.5)) < 1e-6) off = 1.5 * floor(off / 1.5 + 0.5);
   g << "PRN " << prn << " week " << week << " z " << 4 * z4 << " + " << off;
   SVPCodeGen s(prn, start + off);
   CodeBuffer buf(prn);
   long z = 4 * z4;
   CommonTime cur = start;
   if (g.flag(0.3))                                               // get there from somewhere else
   {
      s.setCurrentZCount(GPSZcount((short)g.range(0, 1000), (long)g.below(WEEKZ)));
      s.setCurrentZCount(GPSZcount((short)week, z + (long)g.below(4)));
   }
   REQ_NEAR(s.getCurrentZCount() - cur, 0.0, 1e-9, "initial time is rounded back to 4 Z-counts");
   size_t steps = g.below(3);
   for (size_t k = 0; k < steps; k++)
   {
      if (g.flag()) s.getCurrentSixSeconds(buf);
      s.increment4ZCounts();
      cur += 6.0;
      z += 4; if (z >= WEEKZ) z = 0;
   }
   REQ_NEAR(s.getCurrentZCount() - cur, 0.0, 1e-9, "time after increments");
   REQ_EQ(zOf(s.getCurrentZCount()), z, "Z-count");
   s.getCurrentSixSeconds(buf);
   REQ_NEAR(buf.getCurrentTime() - cur, 0.0, 1e-9, "time of the buffer");
   REQ_EQ((int)buf.getPYFlag(), (int)P_CODE, "kind of code");
   REQ_EQ(buf.getPRNID(), prn, "PRN of the buffer");
   // all the words near the boundaries, and a sample of the others
   long t0 = z * E1;
   long shift = (long)((prn - 1) / 37) * 57600 * E1;
   int i = prn - (prn - 1) / 37 * 37;
   vector<long> words;
   for (long w = 0; w < 8; w++) { words.push_back(w); words.push_back(NUM_6SEC_WORDS - 1 - w); }
   for (long w = 40; w >= 8; w--) words.push_back(NUM_6SEC_WORDS - 1 - w);          // the holds at the end of the week
   for (int e = 1; e < 4; e++) for (long d = -13; d < 3; d++) words.push_back(e * E1 / 32 + d);
   long u0 = (t0 + shift) % (E1 * WEEKZ) - i;
   for (long q = (u0 + E2 - 1) / E2; q * E2 < u0 + 4 * E1 + 64; q++)
      for (long d = -14; d < 4; d++) { long w = (q * E2 - u0) / 32 + d; if (w >= 0 && w < NUM_6SEC_WORDS) words.push_back(w); }
   uint64_t seed = g.bits64();
   for (int k = 0; k < 3000; k++) { seed = pbt::mix(seed); words.push_back((long)(seed % NUM_6SEC_WORDS)); }
   for (size_t k = 0; k < words.size(); k++)
   {
      long w = words[k];
      if (w < 0 || w >= NUM_6SEC_WORDS) continue;
      uint32_t want = 0;
      for (int b = 0; b < 32; b++) want = (want << 1) | (uint32_t)pchip(prn, t0 + w * 32 + b);
      unsigned long got = buf[(int)w];
      REQUIRE(got == want, "word " << w << ": " << hex << got << " wanted " << want);
      if (k % 64 == 0)
      {
         long b = (long)(seed >> 7) % 32; if (b < 0) b = 0;
         REQ_EQ(buf.getBit(w * 32 + b), (unsigned long)((want >> (31 - b)) & 1), "getBit");
      }
   }
   g.nontrivial();
}

PROP(buffers, 60, 600, "any")
{
   init();
   CodeBuffer a(1 + g.below(37)), b(2), c(3);
   SVPCodeGen s(1 + g.below(37), GPSWeekZcount(1000 + g.below(900), 4 * g.below(100800)));
   SVPCodeGen t(1 + g.below(37), GPSWeekZcount(1000 + g.below(900), 4 * g.below(100800)));
   s.getCurrentSixSeconds(a); t.getCurrentSixSeconds(b);
   c = a;
   REQ_EQ(c.getPRNID(), a.getPRNID(), "PRN of a copy");
   REQUIRE(c.getCurrentTime() == a.getCurrentTime(), "time of a copy");
   c ^= b;
   const CodeBuffer& cc = c;
   for (int k = 0; k < 2000; k++)
   {
      int w = (int)g.below(NUM_6SEC_WORDS);
      if (k == 0) w = 0;
      if (k == 1) w = NUM_6SEC_WORDS - 1;
      REQUIRE(cc[w] == (a[w] ^ b[w]), "exclusive or of word " << w);
   }
   c.updateBufferStatus(Y_CODE);
   REQ_EQ((int)c.getPYFlag(), (int)Y_CODE, "kind of code");
   REQUIRE(c.getCurrentTime() == a.getCurrentTime(), "time changed");
   CommonTime when = GPSWeekZcount(7, 8);
   c.updateBufferStatus(when, BOTH);
   REQUIRE(c.getCurrentTime() == when && c.getPYFlag() == BOTH, "updateBufferStatus");
   c = c;
   REQUIRE(c.getCurrentTime() == when && cc[5] == (a[5] ^ b[5]), "assignment to itself");
   for (int bad : {-1, 211, 1000})
   {
      bool th = false;
      try { SVPCodeGen x(bad, when); } catch (gpstk::Exception&) { th = true; }
      REQUIRE(th, "PRN " << bad << " accepted");
   }
   g.nontrivial();
}

PROP(memory, 24, 48, "any")
{
   // every instance needs the memory; it is allocated once; in any order of calls
   // other properties of this process may have allocated it
   try { X1Sequence::deAllocateMemory(); } catch (gpstk::Exception&) {}
   try { X2Sequence::deAllocateMemory(); } catch (gpstk::Exception&) {}
   bool h1 = false, h2 = false;
   for (int k = 0; k < 6; k++)
   {
      int op = g.below(6);
      g << " " << op;
      bool th = false, want = false;
      try
      {
         switch (op)
         {
         case 0: want = h1; X1Sequence::allocateMemory(); h1 = true; break;
         case 1: want = h2; X2Sequence::allocateMemory(); h2 = true; break;
         case 2: want = !h1; X1Sequence::deAllocateMemory(); h1 = false; break;
         case 3: want = !h2; X2Sequence::deAllocateMemory(); h2 = false; break;
         case 4: want = !h1; { X1Sequence s; } break;
         case 5: want = !h2; { X2Sequence s; } break;
         }
      }
      catch (gpstk::Exception&) { th = true; }
      REQ_EQ(th, want, pbt::strf("operation %d refused", op));
   }
   if (!h1) X1Sequence::allocateMemory();
   if (!h2) X2Sequence::allocateMemory();
   X1Sequence a; X2Sequence b;
   uint32_t want = 0;
   for (int q = 0; q < 32; q++) want = (want << 1) | (uint32_t)x1(q);
   REQ_EQ(a[0], want, "X1 after the memory was allocated again");
   g.nontrivial();
}
PBT_MAIN
