# Values on the wire between the harness and Perl: a prefix code, see put_slot and get_slot;
# shared referents are numbered in order.
use strict;
use warnings;
no warnings qw(recursion experimental);
use B ();
use Scalar::Util qw(blessed reftype refaddr weaken isweak);

# ---- writing ----
our ($out, %ids, $nid);

sub put_str {
    my ($s) = @_;
    utf8::encode($s) if utf8::is_utf8($s);
    $out .= pack("V", length $s) . $s;
}

sub put_slot {
    my ($r) = @_;    # reference to the slot
    if (!defined $$r) { $out .= "u"; return }
    if (ref $$r) {
        $out .= isweak($$r) ? "w" : "r";
        put_referent($$r);
        return;
    }
    if (builtin::is_bool($$r)) { $out .= $$r ? "t" : "f"; return }
    my $f = B::svref_2object($r)->FLAGS;
    if ($f & B::SVf_POK) {
        $out .= utf8::is_utf8($$r) ? "S" : "s";
        put_str($$r);
    }
    elsif ($f & B::SVf_IOK) {
        $out .= ($f & B::SVf_IVisUV) ? "U" . pack("Q<", $$r) : "i" . pack("q<", $$r);
    }
    elsif ($f & B::SVf_NOK) { $out .= "d" . pack("d<", $$r) }
    else                    { die "strange scalar with flags $f" }
}

sub put_referent {
    my ($x) = @_;
    my $a = refaddr $x;
    if (defined(my $id = $ids{$a})) { $out .= "#" . pack("V", $id); return }
    $ids{$a} = $nid++;
    my $t = reftype $x;
    my $c = blessed $x;
    my $kind = $t eq 'ARRAY' ? 'A' : $t eq 'HASH' ? 'H' : $t eq 'REGEXP' ? 'X' : $t =~ /^(SCALAR|REF|LVALUE|VSTRING)$/ ? 'V' : die "strange reference $t";
    $out .= $kind;
    if (defined $c) { $out .= "c"; put_str($c) }
    else            { $out .= "-" }
    if ($kind eq 'A') {
        $out .= pack("V", scalar @$x);
        put_slot(\$x->[$_]) for 0 .. $#$x;
    }
    elsif ($kind eq 'H') {
        $out .= pack("V", scalar keys %$x);
        for my $k (sort keys %$x) {
            $out .= utf8::is_utf8($k) ? "S" : "s";
            put_str($k);
            put_slot(\$x->{$k});
        }
    }
    elsif ($kind eq 'X') {
        my ($p, $m) = re::regexp_pattern($x);
        put_str($p);
        put_str($m);
    }
    else { put_slot($x) }
}

# ---- reading ----
our ($in, $pos, @objs, @weak);
our %fzclass;

sub wire_in { ($in, $pos) = @_ }

sub get_n   { my $n = unpack("V", substr($in, $pos, 4)); $pos += 4; $n }
sub get_raw { my ($n) = @_; my $s = substr($in, $pos, $n); $pos += $n; $s }
sub get_str { get_raw(get_n()) }

sub get_class {
    my $c = get_raw(1);
    return undef if $c eq '-';
    my $s = get_str();
    utf8::decode($s);
    return $s;
}

# get_slot fills the scalar that $r refers to.
sub get_slot {
    my ($r) = @_;
    my $c = get_raw(1);
    if    ($c eq 'u') { $$r = undef }
    elsif ($c eq 't') { $$r = !!1 }
    elsif ($c eq 'f') { $$r = !!0 }
    elsif ($c eq 'i') { $$r = unpack("q<", get_raw(8)) }
    elsif ($c eq 'U') { $$r = unpack("Q<", get_raw(8)) }
    elsif ($c eq 'd') { $$r = unpack("d<", get_raw(8)) }
    elsif ($c eq 's') { $$r = get_str() }
    elsif ($c eq 'S') { $$r = get_str(); utf8::decode($$r); utf8::upgrade($$r) }
    elsif ($c eq 'r') { get_referent($r) }
    elsif ($c eq 'w') { get_referent($r); push @weak, $r }
    elsif ($c eq 'z') {    # an object that is frozen
        my $class = get_str();
        my $x     = get_str();
        utf8::decode($class);
        no strict 'refs';
        *{"${class}::FREEZE"} = sub { ${ $_[0] } }
            unless $fzclass{$class}++;
        $$r = bless \$x, $class;
    }
    else { die "bad code '$c'" }
}

sub get_referent {
    my ($r) = @_;
    my $k = get_raw(1);
    if ($k eq '#') { $$r = $objs[get_n()]; return }
    my $id = @objs;
    if ($k eq 'E') {    # the element of an array that is being built
        my $a = $objs[get_n()];
        my $i = get_n();
        push @objs, undef;
        $$r = $objs[$id] = \$a->[$i];
        return;
    }
    my $class = get_class();
    if ($k eq 'A') {
        my $x = $objs[$id] = $$r = [];
        my $n = get_n();
        $#$x = $n - 1 if $n;
        get_slot(\$x->[$_]) for 0 .. $n - 1;
        bless $x, $class if defined $class;
    }
    elsif ($k eq 'H') {
        my $x = $objs[$id] = $$r = {};
        for (1 .. get_n()) {
            my $t = get_raw(1);
            my $key = get_str();
            utf8::decode($key) if $t eq 'S';
            $x->{$key} = undef;
            get_slot(\$x->{$key});
        }
        bless $x, $class if defined $class;
    }
    elsif ($k eq 'X') {
        my ($p, $m) = (get_str(), get_str());
        my $x = eval "qr/\$p/$m" or die $@;
        bless $x, $class if defined $class && $class ne 'Regexp';
        $objs[$id] = $$r = $x;
    }
    elsif ($k eq 'V') {
        my $y;
        my $x = $objs[$id] = $$r = \$y;
        get_slot($x);
        bless $x, $class if defined $class;
    }
    else { die "bad kind '$k'" }
}

# serve answers messages, 4 bytes of length and the payload, until the end of the input.
sub serve {
    my ($handle, $warn) = @_;
    while ((read(STDIN, my $l, 4) || 0) == 4) {
        my $n = unpack("V", $l);
        my $msg = "";
        while (length($msg) < $n) {
            read(STDIN, $msg, $n - length($msg), length($msg)) or exit 1;
        }
        my $res;
        my $ok = eval {
            local $SIG{__WARN__} = $warn || sub { die "warning: @_" };
            $res = $handle->($msg);
            1;
        };
        if ($ok) { $res = "K$res" }
        else {
            my $e = "$@";
            utf8::encode($e) if utf8::is_utf8($e);
            $res = "E$e";
        }
        utf8::encode($res) if utf8::is_utf8($res);
        print STDOUT pack("V", length $res), $res;
    }
}

1;
