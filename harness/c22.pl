# Driver of checks C22 and on: attacks the Perl decoder of the tree under test and looks at what it leaves.
# Messages on stdin and stdout: 4 bytes of length, then the payload.
#   V <n> <opts>* <entry> <into> <offset> <doc>   -> K or E, see attack
use strict;
use warnings;
no warnings qw(recursion experimental);
use FindBin ();
use lib $FindBin::Bin;
use Sereal::Decoder qw(:all);
use Sereal::Encoder;
use Verif::Audit;
require "c18wire.pl";

binmode STDIN;
binmode STDOUT;
$| = 1;

our ($events, $warned) = ("", "");

# ---- classes that documents may name ----
{
    package Foo;
    sub THAW { my ($c, $s, @a) = @_; $main::events .= "T"; return bless [@a], "Thawed" }
    sub DESTROY { $main::events .= "D"; my $s = shift; $main::bad_destroy .= "DESTROY of " . ref($s) unless ref($s) eq 'Foo' }
    package My::Class;
    sub THAW { my ($c, $s, @a) = @_; die "THAW died\n" }
    package X;
    our $nest;
    sub THAW {    # decodes with the decoder that is running
        my ($c, $s, @a) = @_;
        if ($main::nested) { my $p = $main::probe_doc; $main::nested->decode($p) }
        return "thawed";
    }
    package Foo::Bar;
    sub THAW { my ($c, $s, @a) = @_; return \$a[0] }
}
our $bad_destroy = "";
our $nested;
our $probe_doc = Sereal::Encoder->new({ protocol_version => 4 })->encode(
    { list => [1, 2, -3, "str", "\x{263a}", undef, 1.5, 1 << 40], obj => bless({ a => [] }, "Probe"), s => \"ref" });
our ($out, %ids, $nid);

sub dump_of {
    my ($r) = @_;
    ($out, %ids) = ("");
    $nid = 0;
    put_slot($r);
    return $out;
}
our $probe_want = do { my $x = Sereal::Decoder->new->decode($probe_doc); dump_of(\$x) };
{
    package Verif::Frozen;
    sub FREEZE { my $s = shift; return @{$s->{a}} }
    sub THAW { my ($c, $s, @a) = @_; return bless { a => \@a }, $c }
}
# everything a decoder has tables for: strings and classes written once, references, weak ones,
# aliases, circles, objects that are thawed
our @probes = do {
    my $shared = ["some text", 3, -3];
    my $circle = {}; $circle->{me} = $circle; Scalar::Util::weaken($circle->{me});
    my $frozen = bless { a => ["frozen text", [1, 2]] }, "Verif::Frozen";
    my $v = [$shared, $shared, "some text", \$shared->[0], $circle, $frozen, [$frozen], bless([], "Probe"), bless(\(my $x = 5), "Probe"), undef, 3, qr/a.b/i, "\x{263a}longer", { "\x{263a}longer" => 1, "some text" => 2 }];
    push @$v, $v->[0];
    Scalar::Util::weaken($v->[-1]);
    my @p = map { Sereal::Encoder->new({ freeze_callbacks => 1, canonical => 1, %$_ })->encode($v) } { dedupe_strings => 1 }, { aliased_dedupe_strings => 1 }, { compress => Sereal::Encoder::SRL_ZLIB(), compress_threshold => 0 };
    %$circle = ();
    @p;
};
sub nest { my ($n) = @_; my $v = 1; $v = $_ % 2 ? [$v] : { a => $v } for 1 .. $n; return Sereal::Encoder->new->encode($v) }
our %nests;
our $immortals = Verif::Audit::immortals();

my @into = (
    sub { undef }, sub { "some text" }, sub { 4711 }, sub { [1, 2] }, sub { { a => 1 } }, sub { 1.5 }, sub { my $x = "abc\x{263a}"; $x },
);

sub run_entry {    # leaves what was decoded in the array it is given
    my ($d, $o, $entry, $into, $offset, $src, $res) = @_;
    if ($entry == 0) { $res->[0] = undef; my $r = \$res->[0]; $$r = $d->decode($src) }
    elsif ($entry == 1) { $res->[0] = $into[$into]->(); $d->decode($src, $res->[0]) }
    elsif ($entry == 2) {
        @$res = ($into[$into]->(), undef);
        $d->decode_with_header($src, $res->[0], $res->[1]);
    }
    elsif ($entry == 3) { $res->[0] = $into[$into]->(); $d->decode_only_header($src, $res->[0]) }
    elsif ($entry == 4) { $d->decode_with_offset($src, $offset, $res->[0]) }
    elsif ($entry == 5) { $res->[0] = undef; decode_sereal($src, $o, $res->[0]) }
    elsif ($entry == 6) { my $x = decode_sereal_with_header_data($src, $o); @$res = @$x }
    elsif ($entry == 7) { my $x = sereal_decode_with_object($d, $src); $res->[0] = $x }
    elsif ($entry == 8) { $res->[1] = undef; sereal_decode_with_header_and_offset_with_object($d, $src, $offset, $res->[0], $res->[1]) }
    elsif ($entry == 9) { my $x = sereal_decode_only_header_with_object($d, $src); $res->[0] = $x; }
    elsif ($entry == 10) {
        my $n = 0;
        while (length $src and $n < 5) { $res->[$n] = undef; $d->decode($src, $res->[$n]); $n++ }
    }
    elsif ($entry == 11) { $res->[0] = looks_like_sereal($src); $res->[1] = $d->looks_like_sereal($src); $res->[2] = scalar_looks_like_sereal($src) }
    else { die "entry $entry" }
}

sub one {
    my ($d, $o, $entry, $into, $offset, $doc, $slack, $rep) = @_;
    my $src = Verif::Audit::exact($doc);
    my @res;
    my $ok = eval { run_entry($d, $o, $entry, $into, $offset, $src, \@res); 1 };
    my $err = $ok ? "" : "$@";
    # the length of the string of a COPY is read without the start of the document at hand
    $err =~ s/\(via COPY\).* available at offset \K\d+//;
    $@ = "";
    my $dump = "";
    if (@res) {
        $slack = -1 if $slack == -2 && !$ok;
        $slack = 0 if $slack == -2;
        my $a = Verif::Audit::audit($slack, map { \$_ } @res);
        $rep->("what the decoder left is broken (" . ($ok ? "decoded" : "after '$err'") . "): $a") if $a ne "";
        if ($ok && $a eq "") {
            $dump = join "|", map { my $r = \$_; my $x = eval { dump_of($r) }; defined $x ? $x : "strange: " . ($@ =~ s/ at .*//sr) } @res;
        }
        $out = ""; %ids = ();
    }
    @res = ();
    return ($ok, $err, $dump);
}

sub first_diff {
    my ($a, $b) = @{$_[0]};
    return "same" if $a eq $b;
    my $i = 0;
    $i++ while substr($a, $i, 1) eq substr($b, $i, 1);
    my $from = $i > 60 ? $i - 60 : 0;
    return "at $i: " . substr($a, $from, 160) . " <> " . substr($b, $from, 160);
}

sub attack {
    my ($o, $entry, $into, $offset, $shape, $doc) = @_;
    my ($cyclic, $hidden, $header) = map { $shape & $_ } 1, 2, 4;
    my @rep;
    my $rep = sub { push @rep, $_[0] if @rep < 3 };
    $warned = $bad_destroy = "";
    # unless something else may hold what was decoded: the decoder's cache, a circle that was dropped
    my $slack = $o->{alias_smallint} || $o->{alias_varint_under} || $hidden ? -1 : $cyclic ? -2 : 0;
    my $mk = sub { Sereal::Decoder->new($o) };
    my $d = $mk->();
    local $nested = $o->{nested} ? $d : undef;
    my $first = $d;
    my (@r, @m);
    for my $i (0 .. 2) {
        $d = $mk->() if $i == 2 && !$nested;    # the third time with another decoder
        $events = "";
        Verif::Audit::perturb(0x55 + 0x2a * $i);    # what is used before it is set differs from time to time
        my ($ok, $err, $dump) = one($d, $o, $entry, $into, $offset, $doc, $slack, $rep);
        my $e = $err;
        $e =~ s/0x[0-9a-f]+//g;
        $e =~ s/ at \S+ line \d+\.?//g;
        $dump =~ s/0x[0-9a-f]+/0x/g;    # a pattern or key made of a reference
        $r[$i] = "$ok|$e|$dump|$events";
        $rep->("an internal error: $err") if $err =~ /panic|unreferenced scalar|Attempt to free|semi-panic|Panic(?!: utf8 flagged classname)/;
        # an object that failed to appear must not be destroyed
        $rep->("DESTROY ran though decoding failed: '$err'") if !$ok && !$header && $events =~ /D/ && $events !~ /T/ && $err !~ /THAW|Can't bless|read-only|Bizarre copy/;
        $m[$i] = [Verif::Audit::svs(), Verif::Audit::heap()] if $i < 2;
        last if @rep;
    }
    if (!@rep && ($r[0] ne $r[1] || $r[0] ne $r[2])) {
        $rep->("decoding again differs:\n" . join("\n", map { first_diff($_) } [@r[0, 1]], [@r[0, 2]]));
    }
    # the decoder is as good as new
    if (!@rep) {
        my %plain = map { $_ => 1 } qw(set_readonly set_readonly_scalars use_undef alias_smallint alias_varint_under validate_utf8 nested refuse_snappy refuse_zlib refuse_zstd max_uncompressed_size);
        if (!grep { !$plain{$_} } keys %$o) {
            my $x;
            my $ok = eval { my $p = $probe_doc; $d->decode($p, $x); 1 };
            $rep->("the decoder fails on the next document: $@") if !$ok;
            if ($ok) {
                my $got = dump_of(\$x);
                $rep->("the next document is decoded as something else") if $got ne $probe_want;
                if ($o->{set_readonly}) { $rep->("the next document is not read-only") if !Verif::Audit::readonly(\$x->{list}[3]) || !Verif::Audit::readonly(\$x->{list}) }
                if ($o->{alias_varint_under}) {
                    my $y; my $p = $probe_doc; $d->decode($p, $y);
                    $rep->("the next document has no aliases") if $o->{alias_varint_under} > 2 && Verif::Audit::addr(\$x->{list}[1]) != Verif::Audit::addr(\$y->{list}[1]);
                }
            }
        }
    }
    # it treats other documents like a new one
    if (!@rep) {
        my $l = $o->{max_recursion_depth};
        for my $p ($probes[length($doc) % @probes], $l ? ($nests{$l} //= nest($l), $nests{$l - 1} //= nest($l - 1)) : ()) {
            my @got;
            for my $x ($first, $mk->()) {
                my $v;
                my $q = $p;
                my $ok = eval { $x->decode($q, $v); 1 };
                my $e = $ok ? dump_of(\$v) : "error $@";
                $e =~ s/0x[0-9a-f]+//g;
                push @got, $e;
            }
            $rep->("the next document is not what it is for a new decoder:\n" . first_diff(\@got)) if $got[0] ne $got[1];
        }
    }
    undef $first;
    # nothing may be lost, time after time
    if (!@rep && !$cyclic && $entry != 11 && $r[0] !~ /Bizarre copy|in regex/ && ($m[1][0] > $m[0][0] || $m[1][1] > $m[0][1])) {
        my $n = 12;
        one($d, $o, $entry, $into, $offset, $doc, $slack, $rep) for 1 .. 2;
        my ($s0, $h0) = (Verif::Audit::svs(), Verif::Audit::heap());
        one($d, $o, $entry, $into, $offset, $doc, $slack, $rep) for 1 .. $n;
        my ($s1, $h1) = (Verif::Audit::svs(), Verif::Audit::heap());
        if ($s1 - $s0 >= $n || $h1 - $h0 >= $n * 16) {
            $rep->(sprintf "decoding %d times loses %d scalars and %d bytes; %s", $n, $s1 - $s0, $h1 - $h0, length $r[0] > 300 ? substr($r[0], 0, 300) : $r[0]);
        }
    }
    undef $d;
    my $im = Verif::Audit::immortals();
    if ($im ne $immortals) { $rep->("undef, true or false changed: $im"); $immortals = $im }
    $rep->("$bad_destroy") if $bad_destroy ne "";
    $rep->("warning: $warned") if $warned ne "";
    die join("\n", @rep) . "\n" if @rep;
    return $r[0];
}

sub handle {
    my ($msg) = @_;
    my $cmd = substr($msg, 0, 1);
    if ($cmd eq 'V') {
        wire_in($msg, 1);
        my %o;
        for (1 .. get_n()) { my $k = get_str(); $o{$k} = get_str() }
        my ($entry, $into, $offset) = (get_n(), get_n(), get_n());
        my $shape = get_n();
        my $doc = get_str();
        return attack(\%o, $entry, $into, $offset, $shape, $doc);
    }
    die "bad command";
}

serve(\&handle, sub { $warned = $_[0] if $_[0] =~ /unreferenced|panic|Attempt to free|freed value/ });
