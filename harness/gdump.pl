# gdump describes a value scalar by scalar, each with its identity.
use strict;
use warnings;
no warnings qw(recursion experimental);

our (%gid, $gn, $gout);
our $g_ro;    # say what is read-only

sub gdump {
    my ($r) = @_;
    (%gid, $gn, $gout) = ();
    $gn = 0;
    $gout = "";
    g_any($r);
    %gid = ();
    return $gout;
}

sub g_str {
    my $s = "$_[0]";
    utf8::upgrade($s);
    utf8::encode($s);
    $gout .= pack("V", length $s) . $s;
}

sub g_any {
    my ($r) = @_;
    my $addr = refaddr $r;
    if (defined(my $id = $gid{$addr})) { $gout .= "#" . pack("V", $id); return }
    $gid{$addr} = $gn++;
    $gout .= "@";
    $gout .= "R" if $g_ro && Verif::Audit::readonly($r);
    my $c = blessed $r;
    my $t = reftype $r;
    # a regexp is of class Regexp by itself only when qr// made it
    if (defined $c) { $gout .= "c"; g_str($c) }
    else            { $gout .= "-" }
    if (my $i = Verif::Audit::immortal($r)) { $gout .= $i; return }
    if ($t eq 'ARRAY') {
        $gout .= "A" . pack("V", scalar @$r);
        for (0 .. $#$r) {
            if (exists $r->[$_]) { g_any(\$r->[$_]) }
            else                 { $gout .= "\@-u"; $gn++ }
        }
    }
    elsif ($t eq 'HASH') {
        # there may be the canonical undef, which must not be asked for by its key
        my @k = keys %$r;
        my @v = map { \$_ } values %$r;
        $gout .= "H" . pack("V", scalar @k);
        for my $i (sort { $k[$a] cmp $k[$b] } 0 .. $#k) { g_str($k[$i]); g_any($v[$i]) }
    }
    elsif ($t eq 'REGEXP') {
        my ($p, $m) = re::regexp_pattern($r);
        $gout .= "X";
        g_str($p);
        g_str($m);
    }
    elsif ($t =~ /^(CODE|GLOB|IO|FORMAT)$/) { $gout .= "?"; g_str($t) }
    elsif ($t !~ /^(SCALAR|REF|LVALUE|VSTRING)$/) { die "strange value $t" }
    elsif (!defined $$r) { $gout .= "u" }
    elsif (ref $$r ne '') {
        $gout .= isweak($$r) ? "w" : "r";
        g_any($$r);
    }
    elsif (builtin::is_bool($$r)) { $gout .= $$r ? "t" : "f" }
    else {
        my $f = B::svref_2object($r)->FLAGS;
        if ($f & B::SVf_POK) {
            my $s = $$r;
            my $c = utf8::is_utf8($s) ? "S" : "s";
            $c =~ tr/sS/mM/ if $f & (B::SVf_IOK | B::SVf_NOK);    # used as a number
            $gout .= $c;
            utf8::encode($s) if utf8::is_utf8($s);
            $gout .= pack("V", length $s) . $s;
        }
        elsif ($f & B::SVf_IOK) {
            my $n = $$r;
            $gout .= ($f & B::SVf_IVisUV) && $n > 9223372036854775807 ? "U" . pack("Q<", $n) : "i" . pack("q<", $n);
        }
        elsif ($f & B::SVf_NOK) { $gout .= "d" . pack("d<", $$r) }
        else                    { die "strange scalar with flags $f" }
    }
}

# dismantle frees what was decoded, circles included.
sub dismantle {
    my ($res) = @_;
    my (%seen, @all);
    my @todo = map { \$_ } @$res;
    while (my $r = shift @todo) {
        next if $seen{ refaddr $r }++ or Verif::Audit::immortal($r);
        push @all, $r;
        my $t = reftype $r;
        if ($t eq 'ARRAY') {
            for (0 .. $#$r) { push @todo, \$r->[$_] if exists $r->[$_] }
        }
        elsif ($t eq 'HASH')  { push @todo, map { \$_ } values %$r }
        elsif ($t eq 'REF')   { push @todo, $$r }
    }
    for my $r (@all) {
        my $t = reftype $r;
        # restricted hashes, and what set_readonly made so; but not shared integers
        &Internals::SvREADONLY($r, 0) if $t =~ /^(ARRAY|HASH|REF)$/ && Verif::Audit::readonly($r);
        next if Verif::Audit::readonly($r);
        if    ($t eq 'ARRAY') { @$r = () }
        elsif ($t eq 'HASH')  { %$r = () }
        elsif ($t eq 'REF')   { $$r = undef }
        elsif ($t eq 'REGEXP' || $t eq 'SCALAR') { $$r = 5 }
    }
    @$res = ();
}

1;
