# Driver of C24: decodes a document, does this and that to the data, encodes it and says what it was and what came out.
#   R <spice seed> <spices> <freeze> <doc> <n> <path>* <n> <path of header>* <n> ( <n> <opts>* <entry> <poison> )*
#   -> K <header> <body> ( k <bytes> <decoded header> <decoded body> | e <error> )*
use strict;
use warnings;
no warnings qw(recursion experimental numeric void);
use Scalar::Util qw(blessed reftype refaddr weaken isweak);
use FindBin ();
use lib $FindBin::Bin;
use Sereal::Encoder qw(:all);
use Sereal::Decoder qw(:all);
use Verif::Audit;
require "c18wire.pl";
require "gdump.pl";

binmode STDIN;
binmode STDOUT;
$| = 1;

our ($freezing, $freeze_nest, $freeze_die);
sub UNIVERSAL::THAW { my ($c, $s, @a) = @_; die "THAW for $s\n" if $s ne "Sereal"; return bless { args => [@a] }, $c }
# frozen are only what was thawed
sub my_freeze {
    my ($o, $s) = @_;
    die "FREEZE for $s\n" if $s ne "Sereal";
    die "FREEZE died\n" if $freeze_die && --$freeze_die == 0;
    if ($freeze_nest) {    # uses the encoder that is busy
        my ($enc, $want) = @$freeze_nest;
        my $got = $enc->encode(nested());
        die "nested encoding gives something else: " . unpack("H*", $got) . "\n" if $got ne $want;
    }
    return @{ $o->{args} };
}

my $nested;
sub nested { $nested //= do { my $s = "a string that is shared"; my $x = [$s, $s, { key => 1 }, { key => 2 }, 1.5]; push @$x, $x->[2], \$x->[0]; $x } }

{
    package Dier;
    sub TIESCALAR { bless [] }
    sub FETCH     { die "FETCH died\n" }
    sub STORE     { }
}
our $dier;
tie $dier, 'Dier';

my $rnd;
sub rnd { my ($n) = @_; use integer; $rnd = ($rnd * 25214903917 + 11) & 281474976710655; return ($rnd >> 17) % $n }

sub slots {
    my ($root) = @_;
    my (%seen, @slots, @aggr);
    my @todo = ($root);
    while (my $r = shift @todo) {
        next if $seen{ refaddr $r }++ or Verif::Audit::immortal($r);
        my $t = reftype $r;
        if ($t eq 'ARRAY') {
            push @aggr, $r;
            for (0 .. $#$r) { push @todo, \$r->[$_] if exists $r->[$_] }
        }
        elsif ($t eq 'HASH') { push @aggr, $r; push @todo, map { \$_ } values %$r }
        elsif ($t eq 'REF') { push @slots, $r; push @todo, $$r }
        elsif ($t eq 'SCALAR') { push @slots, $r }
    }
    return (\@slots, \@aggr);
}

my @numeric = ("17", "-3", "0", "00", "", " 12", "12 ", "+5", "0x10", "1e3", "inf", "nan", "-0", "1_000", "1.5", "-1.25", ".5", "5.", "0.1", "3.0", "1.10", "0 but true",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "123456789.125", "0.123456789012345",
    "1.10000000000000000001", "12345678901234567890123", "0.30000000000000004", "1e15", "1e-7", "123456789012345678", "100000000.5", "-0.0000123456", "1234567890.1234567", "3abc", "\x{663}", "2\n", "2\0");

sub spice {
    my ($root, $n) = @_;
    while ($n-- > 0) {
        my ($s, $a) = slots($root);
        my $r = @$s ? $s->[rnd(scalar @$s)] : next;
        my $g = @$a ? $a->[rnd(scalar @$a)] : undef;
        my $op = rnd(17);
        my $plain = !ref $$r && !Verif::Audit::readonly($r);
        if ($op == 0 && $plain) { $$r = $numeric[rnd(scalar @numeric)]; my $f = rnd(5); $f == 0 ? $$r + 0 : $f == 1 ? $$r | 0 : $f == 2 ? sqrt(abs $$r) : $f == 3 ? sprintf("%d %g", $$r, $$r) : $$r == 7 }
        elsif ($op == 1 && $plain && defined $$r) { my $x = "$$r"; my $y = length $x }
        elsif ($op == 2 && $g) { if (reftype $g eq 'ARRAY') { my $x = @$g + rnd(3); $g->[$x] = rnd(100) if !blessed $g || 1 } else { $g->{"new" . rnd(3)} = [rnd(9)] if !Verif::Audit::readonly($g) } }
        elsif ($op == 3 && $g && reftype $g eq 'HASH') { each %$g; each %$g if rnd(2) }
        elsif ($op == 4 && $g) {
            if (reftype $g eq 'HASH') { if (!Verif::Audit::readonly($g)) { $g->{$_} = $_ for 1 .. 20; delete $g->{$_} for 1 .. 20; keys(%$g) = 64 if rnd(2) } }
            elsif (@$g)               { delete $g->[rnd(scalar @$g)] }
        }
        elsif ($op == 5 && $plain && defined $$r) { pos($$r) = 0 }
        elsif ($op == 6 && $plain && defined $$r) { my $x = length $$r; $x = index $$r, "\x{263a}" }
        elsif ($op == 7 && $g && reftype $g eq 'HASH' && !blessed $g) { require Hash::Util; Hash::Util::lock_ref_keys($g, keys %$g, "forbidden", "more") if !Verif::Audit::readonly($g) }
        elsif ($op == 8 && $g && $plain) { $$r = $g; weaken($$r) }
        elsif ($op == 9 && $plain) { my $x = $s->[rnd(scalar @$s)]; $$r = $x; weaken($$r) if $x == $r || rnd(3) == 0 }
        elsif ($op == 10 && $plain) { if (rnd(3)) { $$r = v1.22.333 } elsif (!$main::freezing) { $$r = (qr/a.b/, qr/x y/xi, qr/\x{263a}/, bless(qr/q/s, "MyRe"), qr//)[rnd(5)] } }
        elsif ($op == 11 && $plain) { $$r = (!!1, !!0, \!!1, \!!0, \undef, \"constant", \17)[rnd(7)] }
        elsif ($op == 12 && $plain && rnd(4) == 0) { $$r = (\&nested, *STDOUT, \*STDERR, *STDIN{IO}, sub { $n }, bless(sub { 1 }, "Code"), \&spice, \*STDERR)[rnd(8)]; weaken($$r) if ref $$r && rnd(3) }
        elsif ($op == 13 && $plain) { my @n = (0, -1, 15, 16, -16, -17, 127, 128, 1 << 31, -(1 << 31), 1 << 53, 9223372036854775807, 18446744073709551615, -9223372036854775807 - 1, 1e15, 1e16, 0.5, -0.0, 1.1, 3e300, 9**9**9, -9**9**9, 16777216.0, 16777217.0, 2**53, 1e-310); $$r = $n[rnd(scalar @n)]; my $x = rnd(3); $x == 1 ? $$r | 0 : $x == 2 ? "$$r" : 0 }
        elsif ($op == 14 && $plain && defined $$r) { $$r = "$$r"; utf8::upgrade($$r) if rnd(2); $$r .= "\x{e9}" if rnd(2) }
        elsif ($op == 15 && $plain) { $$r = ("short", "longer than three", "longer than three", "caf\x{e9}", "caf\x{e9}\x{263a}", do { my $x = "caf\x{e9}"; utf8::upgrade($x); $x })[rnd(6)] }
        elsif ($op == 16 && $g) {    # one scalar in two places
            my $x = $s->[rnd(scalar @$s)];
            if (reftype $g eq 'ARRAY') { Verif::Audit::alias_push($g, $x) }
            elsif (!Verif::Audit::readonly($g)) { Verif::Audit::alias_store($g, "alias" . rnd(2), $x) }
        }
    }
}

sub follow {    # the slot that a path leads to
    my ($r, @path) = @_;
    for my $p (@path) {
        my ($s) = slots($r);
        $r = $s->[$p % @$s] if @$s;
    }
    return $r;
}

sub encode_by {
    my ($entry, $enc, $o, $r, $h) = @_;
    if ($entry == 0) { return $enc->encode($$r) }
    elsif ($entry == 1) { return sereal_encode_with_object($enc, $$r) }
    elsif ($entry == 2) { return encode_sereal($$r, $o) }
    elsif ($entry == 3) { return $enc->encode($$r, $$h) }
    elsif ($entry == 4) { return sereal_encode_with_object($enc, $$r, $$h) }
    elsif ($entry == 5) { return encode_sereal_with_header_data($$r, $$h, $o) }
    elsif ($entry == 6) { return [map { { x => $enc->encode($_) } } $$r]->[0]{x} }
    elsif ($entry == 7) { my %x; for ($$r) { $x{y} = sereal_encode_with_object($enc, $_) } return delete $x{y} }
    elsif ($entry == 8) { my @x = (1, $enc->encode($$r, $$h), 2); return $x[1] }
    die "entry $entry";
}

sub clean { my ($e) = @_; $e =~ s/ at \S+ line \d+\.?\n?//g; $e =~ s/\(0x[0-9a-f]+\)//; return $e }

sub handle {
    my ($msg) = @_;
    die "bad command" if substr($msg, 0, 1) ne 'R';
    wire_in($msg, 1);
    ($rnd, my $spices, my $freeze) = (get_n(), get_n(), get_n());
    my $doc = get_str();
    my @path  = map { get_n() } 1 .. get_n();
    my @hpath = map { get_n() } 1 .. get_n();
    my @var;
    for (1 .. get_n()) {
        my %o;
        for (1 .. get_n()) { my $k = get_str(); $o{$k} = get_str() }
        push @var, [\%o, get_n(), get_n()];
    }
    my @res = (undef);
    $freezing = $freeze;
    Sereal::Decoder->new->decode($doc, $res[0]);
    spice(\$res[0], $spices);
    my $r = follow(\$res[0], @path);
    my $h = follow(\$res[0], @hpath);
    my $before = gdump($r);
    my $hbefore = gdump($h);
    my $ans = $hbefore . $before;
    no warnings 'once', 'redefine';
    local *UNIVERSAL::FREEZE = \&my_freeze if $freeze;
    my $n0;
    my $k = 0;
    for my $v (@var) {
        my ($o, $entry, $poison) = @$v;
        my $whole = sub {
            my ($keep) = @_;
            my $enc = Sereal::Encoder->new($o);
            local $freeze_nest = $freeze && $poison & 1 ? do { my $w = eval { Sereal::Encoder->new($o)->encode(nested()) }; defined $w ? [$enc, $w] : undef } : undef;
            my $b = eval { encode_by($entry, $enc, $o, $r, $h) };
            my $e = clean("$@");
            # the encoder has failed before
            if ($poison & 2) {
                my ($s1, $s2) = ("a string that is shared", "x" x 300);
                my $x = { key => \$s1, other => [\$s1, "a string that is shared", { key => [\$s2] }, \$s2] };
                $x->{other}[4] = bless [], "Foo" unless $freeze;
                weaken($x->{weak} = $x->{other});
                $x->{zzz} = [\$dier];
                $poison & 4 ? eval { $enc->encode($$r, $x) } : eval { $enc->encode($x) };
                die "FETCH did not die: $@" if $@ !~ /FETCH died|recursion depth|header|croak_on_bless/;
                if ($freeze) { local $freeze_die = 1 + rnd(2); eval { $enc->encode($$r) }; }
            }
            for (1 .. $keep) {
                my $b2 = eval { encode_by($entry, $enc, $o, $r, $h) };
                my $e2 = clean("$@");
                die "encoding again gives something else: " . (defined $b2 ? unpack("H*", $b2) : $e2) . " after " . (defined $b ? unpack("H*", $b) : $e) . "\n"
                    if (defined $b ? $b : "") ne (defined $b2 ? $b2 : "") || $e2 ne $e;
            }
            return ($b, $e);
        };
        my ($b, $e) = $whole->(2);
        die "encoding changed the data\n" if gdump($r) ne $before || gdump($h) ne $hbefore;
        if (defined $b) {
            die "not a string of bytes\n" if utf8::is_utf8($b);
            my $a = Verif::Audit::audit(0, \$b);
            die "what was encoded is broken: $a\n" if $a ne "";
            my @got = (undef, undef);
            my $src = Verif::Audit::exact($b);
            my $dec = Sereal::Decoder->new;
            eval { $dec->decode_with_header($src, $got[1], $got[0]); 1 } or die "the document is refused: $@ " . unpack("H*", $b) . "\n";
            $a = Verif::Audit::audit(-1, map { \$_ } @got);
            die "what was decoded is broken: $a\n" if $a ne "";
            $ans .= "k" . pack("V", length $b) . $b . gdump(\$got[0]) . gdump(\$got[1]);
            # a canonical form is one
            if ($o->{canonical}) {
                my $b2 = eval { encode_by($entry, Sereal::Encoder->new($o), $o, \$got[1], \$got[0]) } // "error $@";
                $ans .= pack("V", length $b2) . $b2;
            }
            dismantle(\@got);
        }
        else { $ans .= "e" . pack("V", length $e) . $e }
        # nothing is lost
        if ($k++ == 0) {
            my @n = (0) x 8;
            for my $i (0 .. 7) { $whole->(0); $n[$i] = Verif::Audit::svs(); last if $i == 2 && $n[2] <= $n[1] }
            die "memory is lost: @n\n" if $n[7] - $n[1] >= 6;
        }
    }
    dismantle(\@res);
    return $ans;
}

serve(\&handle, sub { die "warning: @_" if $_[0] !~ /^Not blessing object that would be DESTROYed|^Found type/ });
