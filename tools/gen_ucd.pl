#!/usr/bin/perl
# Writes harness/ucd.h: ranges of the Unicode 15.0 character database (perl's own copy) used as the oracle of C06.
use strict; no warnings;
use Unicode::UCD;
die "need Unicode 15.0" unless Unicode::UCD::UnicodeVersion() eq '15.0.0';
my %p=(hyphen=>qr/\p{Hyphen}/,letter=>qr/[\p{Ll}\p{Lm}\p{Lo}\p{Lt}\p{Lu}]/,lowercase=>qr/\p{Lowercase}/,uppercase=>qr/\p{Uppercase}/,
 number=>qr/[\p{Nd}\p{Nl}]/,whitespace=>qr/\p{White_Space}/,combining_mark=>qr/[\p{Mn}\p{Mc}]/);
open O,">","harness/ucd.h";
print O "// generated by tools/gen_ucd.pl from the Unicode 15.0 character database\n#pragma once\n#include <cstdint>\nstruct ucd_range { uint32_t lo, hi; };\n";
for my $k (sort keys %p){ my ($on,$n)=(0,0); print O "static constexpr ucd_range ucd_$k\[] = {";
 for my $c (0..0x110000){ my $b=$c<=0x10FFFF && chr($c)=~$p{$k};
  if($b&&!$on){ print O ($n++%8?"":"\n\t"); printf O "{ 0x%X, ",$c;$on=1}
  elsif(!$b&&$on){printf O "0x%X }, ",$c-1;$on=0}}
 print O "\n};\n"; }
