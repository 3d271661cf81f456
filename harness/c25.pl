# Driver of C25: options that refuse documents, and documents one after another.
#   L <doc> <n> (<opts>* <entry> <must: 0 pass, 1 die, 2 either> <pattern of the message>)*  -> K<number passed>,<number died>
#   D <doc> <max>                   -> K and for every recursion limit up to it whether decoding passed
#   N <doc> <too deep>              -> K
#   S <n> <doc>* <junk before> <rest behind> <mode> <opts>*   -> K
use strict;
use warnings;
no warnings qw(recursion experimental);
use FindBin ();
use lib $FindBin::Bin;
use Sereal::Decoder qw(:all);
use Verif::Audit;
require "c18wire.pl";
require "gdump.pl";

binmode STDIN;
binmode STDOUT;
$| = 1;

sub UNIVERSAL::THAW { my ($c, $s, @a) = @_; die "THAW for $s\n" if $s ne "Sereal"; return bless { args => [@a] }, $c }

sub opts { my %o; for (1 .. get_n()) { my $k = get_str(); $o{$k} = get_str() } return \%o }

my @probe = ("=srl\x01\x00\x07", "=\xf3rl\x04\x00\x07", "=\xf3rl\x03\x00\x41\x07");

sub run {    # leaves header and body in the array
    my ($d, $o, $entry, $src, $res) = @_;
    if ($entry == 0) { $d->decode($src, $res->[1]) }
    elsif ($entry == 1) { $d->decode_with_header($src, $res->[1], $res->[0]) }
    elsif ($entry == 2) { $d->decode_only_header($src, $res->[0]); die "only the header consumes " . $d->bytes_consumed . " bytes\n" if $d->bytes_consumed }
    elsif ($entry == 3) { sereal_decode_with_object($d, $src, $res->[1]) }
    elsif ($entry == 4) { decode_sereal($src, $o, $res->[1]) }
    elsif ($entry == 5) { sereal_decode_with_header_with_object($d, $src, $res->[1], $res->[0]) }
    else { die "entry $entry" }
}

sub dumped { my ($res) = @_; my $g = gdump(\$res->[0]) . gdump(\$res->[1]); dismantle($res); return $g }

sub limits {
    my $doc = get_str();
    my %plain;
    my @n = (0, 0);
    for (1 .. get_n()) {
        my $o = opts();
        my ($entry, $must, $re) = (get_n(), get_n(), get_str());
        my $said = join(",", map { "$_=$o->{$_}" } sort keys %$o) . " entry $entry";
        if (!defined $plain{$entry}) {
            my @res;
            run(Sereal::Decoder->new, {}, $entry, my $src = $doc, \@res);
            $plain{$entry} = dumped(\@res);
        }
        my $d = Sereal::Decoder->new($o);
        my $first;
        for my $i (0 .. 2) {
            my @res;
            my $ok = eval { run($d, $o, $entry, my $src = $doc, \@res); 1 };
            my $err = $ok ? "" : $@;
            if ($ok) {
                $n[0]++;
                die "$said: accepted\n" if $must == 1;
                die "$said: decoded as something else\n" if dumped(\@res) ne $plain{$entry};
            }
            else {
                $n[1]++;
                die "$said: refused: $err" if $must == 0;
                die "$said: refused with: $err" if $err !~ /$re/i;
                dismantle(\@res);
            }
            $first //= $ok;
            die "$said: refused one time but not the other\n" if !$ok != !$first;
            # a refused document does not harm the next one
            my $p = $probe[$i];
            my $x = $d->decode($p);
            die "$said: the next document is decoded as something else\n" if (ref $x ? $x->[0] // "" : $x) ne 7;
        }
    }
    return "$n[0],$n[1]";
}

sub depths {
    my ($doc, $max) = (get_str(), get_n());
    my $s = "";
    for my $l (1 .. $max) {
        my $d = Sereal::Decoder->new({ max_recursion_depth => $l });
        my @r;
        for my $i (0 .. 3) {
            my @res;
            $r[$i] = eval { run($d, {}, 0, my $src = $doc, \@res); 1 } ? 1 : 0;
            die "limit $l: $@" if !$r[$i] && $@ !~ /recursion limit/i;
            dismantle(\@res);
            die "limit $l: once refused, once not\n" if $r[$i] != $r[0];
            # what fails in the depths does not count for the next
            for my $deep ($l > 2 ? ($l - 2, 1 + ($l >> 1)) : ()) {
                my $bad = "=\xf3rl\x04\x00" . ("\x41" x $deep) . ($i & 1 ? "" : "\x29\x7f");
                my $x;
                die "limit $l: nonsense is accepted\n" if eval { $d->decode($bad, $x); 1 };
                die "limit $l: $@" if $@ =~ /recursion limit/i;
            }
        }
        $s .= $r[0];
    }
    return $s;
}

# nesting near the default limit
sub nesting {
    my ($doc, $deep) = (get_str(), get_n());
    my $d = Sereal::Decoder->new;
    for (0 .. 1) {
        my @res;
        my $ok = eval { $d->decode($doc, $res[0]); 1 };
        my $err = $@;
        dismantle(\@res);
        die "accepted\n" if $deep && $ok;
        die "refused: $err" if $ok ? 0 : !$deep || $err !~ /recursion limit/i;
    }
    return "";
}

# one of the ways to decode at an offset; gives header and body, and whether there is a header
sub at_offset {
    my ($d, $how, $src, $pos) = @_;
    my ($h, $b);
    if ($how == 0) { $b = $d->decode_with_offset($$src, $pos) }
    elsif ($how == 1) { $d->decode_with_offset($$src, $pos, $b) }
    elsif ($how == 2) { $b = sereal_decode_with_offset_with_object($d, $$src, $pos) }
    elsif ($how == 3) { $d->decode_with_header_and_offset($$src, $pos, $b, $h); return ($h, $b, 1) }
    elsif ($how == 4) { my $x = $d->decode_with_header_and_offset($$src, $pos); return (@$x, 1) }
    elsif ($how == 5) { sereal_decode_with_header_and_offset_with_object($d, $$src, $pos, $b, $h); return ($h, $b, 1) }
    elsif ($how == 6) {
        $h = $d->decode_only_header_with_offset($$src, $pos);
        die "the header alone consumes bytes\n" if $d->bytes_consumed;
        $b = $d->decode_with_offset($$src, $pos);
        return ($h, $b, 1);
    }
    elsif ($how == 7) {
        sereal_decode_only_header_with_offset_with_object($d, $$src, $pos, $h);
        die "the header alone consumes bytes\n" if $d->bytes_consumed;
        sereal_decode_with_offset_with_object($d, $$src, $pos, $b);
        return ($h, $b, 1);
    }
    return (undef, $b, 0);
}

sub incrementally {
    my ($d, $o, $how, $src) = @_;    # $$src shrinks
    my ($h, $b);
    if ($how == 0) { $b = $d->decode($$src) }
    elsif ($how == 1) { $d->decode($$src, $b) }
    elsif ($how == 2) { $b = decode_sereal($$src, $o) }
    elsif ($how == 3) { sereal_decode_with_object($d, $$src, $b) }
    elsif ($how == 4) { $d->decode_with_header($$src, $b, $h); return ($h, $b, 1) }
    elsif ($how == 5) { my $x = decode_sereal_with_header_data($$src, $o); return (@$x, 1) }
    elsif ($how == 6) { my $x = sereal_decode_with_header_with_object($d, $$src); return (@$x, 1) }
    elsif ($how == 7) {
        my $len = length $$src;
        $h = $d->decode_only_header($$src);
        die "the header alone takes something away\n" if length $$src != $len;
        $b = $d->decode($$src);
        return ($h, $b, 1);
    }
    return (undef, $b, 0);
}

sub same_as {
    my ($what, $i, $want, $h, $b, $has) = @_;
    my $g = gdump(\$b);
    my $gh = gdump(\$h);
    my @x = ($h, $b);
    dismantle(\@x);
    die "$what: document $i is decoded as something else\n" if $g ne $want->[1];
    die "$what: header $i is decoded as something else\n" if $has && $gh ne $want->[0];
}

sub stream {
    my @docs = map { get_str() } 1 .. get_n();
    my ($junk, $rest, $mode, $how) = (get_str(), get_str(), get_n(), get_n());
    my $o = opts();
    my $d = Sereal::Decoder->new($o);
    my @want;
    for my $doc (@docs) {
        my ($h, $b) = sub { my ($h, $b); Sereal::Decoder->new->decode_with_header(my $s = $doc, $b, $h); return ($h, $b) }->();
        push @want, [gdump(\$h), gdump(\$b)];
        my @x = ($h, $b);
        dismantle(\@x);
    }
    my $sum = join("", @docs);
    if ($mode == 0) {
        my $src = $junk . $sum . $rest;
        my $copy = $src;
        utf8::upgrade($src) if $how & 16;
        my $pos = length $junk;
        for my $i (0 .. $#docs) {
            my ($h, $b, $has) = at_offset($d, $how & 7, \$src, $pos);
            my $n = $d->bytes_consumed;
            die "offset: document $i of " . length($docs[$i]) . " bytes consumes $n\n" if $n != length $docs[$i];
            same_as("offset $how", $i, $want[$i], $h, $b, $has);
            $pos += $n;
        }
        die "offset: the input is changed\n" if $src ne $copy;
        for my $bad (length($src) + 1, length $src) {
            my $ok = eval { at_offset($d, $how & 7, \$src, $bad); 1 };
            die "offset: decodes beyond the end\n" if $ok;
        }
    }
    elsif ($mode == 1) {
        my $src = $sum . $rest;
        my $copy = $src;               # shared, perhaps
        if ($how & 16) { utf8::upgrade($src) }
        if ($how & 32) { $src = "xyz$src"; substr($src, 0, 3, "") }
        # nothing behind the string, which perl itself does not like in a lexical
        my $p = $how & 8 ? \Verif::Audit::exact($copy) : \$src;
        my $left = $copy;
        for my $i (0 .. $#docs) {
            my ($h, $b, $has) = incrementally($d, $o, $how & 7, $p);
            $left = substr($left, length $docs[$i]);
            die "incremental $how: after document $i " . length($$p) . " bytes are left and not " . length($left) . "\n" if length $$p != length $left;
            die "incremental $how: after document $i something else is left\n" if $$p ne $left;
            same_as("incremental $how", $i, $want[$i], $h, $b, $has);
        }
        die "incremental: a copy of the input is changed\n" if $copy ne $sum . $rest;
        # what is no document, or not yet, stays
        for (1 .. 2) {
            my $ok = eval { incrementally($d, $o, $how & 7, $p); 1 };
            die "incremental $how: an incomplete document is decoded\n" if $ok;
            die "incremental $how: an incomplete document is taken away\n" if $$p ne $left;
        }
        # more may come
        if ($how & 64) {
            my $doc = $docs[-1];
            $p = \(my $s = substr($doc, 0, length($doc) - 1));
            my $last = substr($doc, -1);
            die "incremental $how: an incomplete document is decoded\n" if eval { incrementally($d, $o, $how & 7, $p); 1 };
            $$p .= $last;
            my ($h, $b, $has) = incrementally($d, $o, $how & 7, $p);
            die "incremental $how: something is left of the last one\n" if $$p ne "";
            same_as("incremental $how", $#docs, $want[-1], $h, $b, $has);
        }
    }
    elsif ($mode == 2) {
        my $file = "/tmp/verif-c25-$$.srl";
        open my $fh, ">:raw", $file or die "$file: $!";
        print $fh $sum;
        close $fh or die "$file: $!";
        my $ok = eval {
            my $one = $how & 1 ? $d->decode_from_file($file) : Sereal::Decoder->decode_from_file($file);
            same_as("file", 0, $want[0], undef, $one, 0);
            my $copy = sub { $d->decode_from_file($file, my $into); return $into }->();
            same_as("file", 0, $want[0], undef, $copy, 0);
            if ($o->{incremental}) {
                my @all = $d->decode_from_file($file);
                die "file: " . @all . " documents of " . @docs . "\n" if @all != @docs;
                same_as("file", $_, $want[$_], undef, $all[$_], 0) for 0 .. $#docs;
            }
            1;
        };
        my $err = $@;
        unlink $file;
        die $err if !$ok;
    }
    elsif ($mode == 3) {
        # garbage behind a document does not matter, a missing end does
        my $doc = $docs[0];
        my @cut = (0 .. 12, map { length($doc) - $_ } 1 .. 12);
        for my $n (grep { $_ >= 0 && $_ < length $doc } @cut) {
            my $src = Verif::Audit::exact(substr($doc, 0, $n));
            my $x;
            die "the first $n of " . length($doc) . " bytes are decoded\n" if eval { $d->decode($src, $x); 1 };
            my @x = ($x);
            dismantle(\@x);
        }
        my $src = $doc . $rest;
        my $b = $d->decode($src);
        die "garbage: " . $d->bytes_consumed . " bytes consumed of a document of " . length($doc) . "\n" if $d->bytes_consumed != length $doc;
        same_as("garbage", 0, $want[0], undef, $b, 0);
    }
    return "";
}

# what a document looks like
sub looks {
    my $n = get_n();
    for (1 .. $n) {
        my ($s, $want) = (get_str(), get_str());    # want: "" no, "0" accidentally encoded, or the version
        my $d = Sereal::Decoder->new;
        utf8::upgrade($s) if $n & 1;
        my @got = (Sereal::Decoder->looks_like_sereal($s), $d->looks_like_sereal($s), scalar_looks_like_sereal($s), Sereal::Decoder::looks_like_sereal($s));
        for my $i (0 .. $#got) {
            my $g = $got[$i];
            die "looks_like_sereal, way $i, says '$g' and not '$want' of " . unpack("H*", $s) . "\n" if "$g" ne $want;
            die "looks_like_sereal, way $i, says something that is not the number 0\n" if $want eq "0" && builtin::is_bool($g);
        }
        for my $x (undef, [1], {}, \"x") {
            my $g = scalar_looks_like_sereal($x);
            die "looks_like_sereal says '$g' of what is no string\n" if $g;
        }
    }
    return "";
}

sub handle {
    my ($msg) = @_;
    my $cmd = substr($msg, 0, 1);
    wire_in($msg, 1);
    return limits() if $cmd eq 'L';
    return nesting() if $cmd eq 'N';
    return depths() if $cmd eq 'D';
    return stream() if $cmd eq 'S';
    return looks()  if $cmd eq 'M';
    die "bad command $cmd";
}

serve(\&handle, sub { die "warning: @_" if $_[0] !~ /^Not blessing object that would be DESTROYed|^Malformed UTF-8 character.*in string comparison/ });
