# Driver of C23: decodes documents and says exactly what came out, scalar by scalar.
#   G <n> <opts>* <entry> <offset> <has header> <doc>   -> K and the graphs of header and body
use strict;
use warnings;
no warnings qw(recursion experimental);
use FindBin ();
use lib $FindBin::Bin;
use Sereal::Decoder qw(:all);
use Verif::Audit;
require "c18wire.pl";
require "gdump.pl";

binmode STDIN;
binmode STDOUT;
$| = 1;

# whatever class is named can thaw
sub UNIVERSAL::THAW { my ($c, $s, @a) = @_; die "THAW for $s\n" if $s ne "Sereal"; return bless { args => [@a] }, $c }

$main::g_ro = 1;

my @into = (sub { undef }, sub { "old text" }, sub { 4711 }, sub { [1, [2]] }, sub { { a => {} } }, sub { 1.5 }, sub { \my $x }, sub { my $y = 1; \$y });

sub run_entry {    # leaves header and body in the array
    my ($d, $o, $entry, $offset, $hdr, $src, $res) = @_;
    if ($entry == 0) { $res->[1] = $d->decode($src) }
    elsif ($entry == 1) { $d->decode($src, $res->[1]) }
    elsif ($entry == 2) { $res->[1] = decode_sereal($src, $o) }
    elsif ($entry == 3) { decode_sereal($src, $o, $res->[1]) }
    elsif ($entry == 4) { $res->[1] = sereal_decode_with_object($d, $src) }
    elsif ($entry == 5) { sereal_decode_with_object($d, $src, $res->[1]) }
    elsif ($entry == 6) { my $x = $d->decode_with_header($src); $res->[$_] = $x->[$_] for 0, 1; $x = undef }
    elsif ($entry == 7) { $d->decode_with_header($src, $res->[1], $res->[0]) }
    elsif ($entry == 8) { my $x = decode_sereal_with_header_data($src, $o); $res->[$_] = $x->[$_] for 0, 1; $x = undef }
    elsif ($entry == 9) { $res->[1] = $d->decode_with_offset($src, $offset) }
    elsif ($entry == 10) { $d->decode_with_header_and_offset($src, $offset, $res->[1], $res->[0]) }
    elsif ($entry == 11) { $res->[0] = $d->decode_only_header($src); $res->[1] = $d->decode($src) }
    elsif ($entry == 12) { $d->decode_only_header_with_offset($src, $offset, $res->[0]); $d->decode_with_offset($src, $offset, $res->[1]) }
    elsif ($entry == 13) { $res->[1] = { k => $d->decode($src) }->{k} }
    elsif ($entry == 14) { my %h; $d->decode($src, $h{new}); $res->[1] = delete $h{new} }
    elsif ($entry == 15) { my @a = map { $d->decode($src) } 1; $res->[1] = $a[0] }
    else { die "entry $entry" }
}

sub handle {
    my ($msg) = @_;
    my $cmd = substr($msg, 0, 1);
    die "bad command" if $cmd ne 'G';
    wire_in($msg, 1);
    my %o;
    for (1 .. get_n()) { my $k = get_str(); $o{$k} = get_str() }
    my ($entry, $offset, $into, $cyc) = (get_n(), get_n(), get_n(), get_n());
    my $doc = get_str();
    my $d = Sereal::Decoder->new(\%o);
    my ($ans, $n0);
    for my $i (0 .. 2) {
        my $src = Verif::Audit::exact($doc);
        my @res = ($into[$into]->(), $into[$into]->());
        Verif::Audit::perturb(0x55 + 0x2a * $i);
        run_entry($d, \%o, $entry, $offset, 1, $src, \@res);
        die "the input was changed\n" if $src ne $doc;
        if ($i == 1) {
            # what is decoded is the user's: it may be changed
            dismantle(\@res);
            $n0 = Verif::Audit::svs();
            next;
        }
        my $a = Verif::Audit::audit($cyc || $o{alias_smallint} || $o{alias_varint_under} ? -1 : 0, map { \$_ } @res);
        die "what was decoded is broken: $a\n" if $a ne "";
        my $g = gdump(\$res[0]) . gdump(\$res[1]);
        $ans //= $g;
        die "decoding again differs\n" if $ans ne $g;
        dismantle(\@res) if $i;
        die "memory is lost\n" if $i == 2 && !$cyc && Verif::Audit::svs() > $n0 && lost($d, \%o, $entry, $offset, $into, $doc);
        dismantle(\@res) if !$i;
    }
    return $ans;
}

# a few scalars come and go, so it takes more than one look
sub lost {
    my ($d, $o, $entry, $offset, $into, $doc) = @_;
    my $n = 10;
    my @n = (0) x ($n + 1);
    for my $i (0 .. $n) {
        my $src = Verif::Audit::exact($doc);
        my @res = ($into[$into]->(), $into[$into]->());
        run_entry($d, $o, $entry, $offset, 1, $src, \@res);
        dismantle(\@res);
        $n[$i] = Verif::Audit::svs();
    }
    return $n[$n] - $n[1] >= $n - 1;
}

# said of objects within what only weak references refer to
serve(\&handle, sub { die "warning: @_" if $_[0] !~ /^Not blessing object that would be DESTROYed/ });
