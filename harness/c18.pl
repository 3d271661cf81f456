# Driver of check C18: decodes and encodes with the Perl modules of the tree under test.
# Messages on stdin and stdout: 4 bytes of length, then the payload.
#   D <doc>          decode the body           -> K <value>            or E <error>
#   H <doc>          decode header and body    -> K <value> <value>
#   X <n> <opts>* <value> <header>             -> K <document>         (encode)
# A value is a prefix code, see put_slot and get_slot; shared referents are numbered in order.
use strict;
use warnings;
no warnings qw(recursion experimental);
use FindBin ();
use lib $FindBin::Bin;
use Scalar::Util qw(weaken);
use Sereal::Decoder;
use Sereal::Encoder;
require "c18wire.pl";

binmode STDIN;
binmode STDOUT;
$| = 1;

sub UNIVERSAL::THAW {
    my ($class, $ser, @args) = @_;
    die "THAW called with serializer '$ser'" if $ser ne 'Sereal';
    die "THAW called with " . scalar(@args) . " arguments" if @args != 1;
    my $x = $args[0];
    return bless \$x, "Frozen::$class";
}

our ($out, %ids, $nid, $in, $pos, @objs, @weak);

my $dec  = Sereal::Decoder->new;
my %encs;

sub handle {
    my ($msg) = @_;
    my $cmd = substr($msg, 0, 1);
    if ($cmd eq 'D' || $cmd eq 'H') {
        my $doc = substr($msg, 1);
        ($out, %ids) = ("");
        $nid = 0;
        if ($cmd eq 'D') {
            my $x;
            my $d = length($doc) % 3 ? $dec : Sereal::Decoder->new;
            $d->decode($doc, $x);
            put_slot(\$x);
        }
        else {
            my ($h, $x);
            $dec->decode_with_header($doc, $x, $h);
            put_slot(\$h);
            %ids = ();
            $nid = 0;
            put_slot(\$x);
        }
        return $out;
    }
    if ($cmd eq 'X') {
        wire_in($msg, 1);
        my %o;
        for (1 .. get_n()) { my $k = get_str(); $o{$k} = get_str() }
        my $key = join ",", map { "$_=$o{$_}" } sort keys %o;
        my $e = $encs{$key} ||= Sereal::Encoder->new(\%o);
        my ($x, $h);
        my $hashdr = get_raw(1) eq 'h';
        @objs = @weak = ();
        if ($hashdr) {
            get_slot(\$h);
            weaken($$_) for @weak;
            @weak = ();
        }
        @objs = ();
        get_slot(\$x);
        weaken($$_) for @weak;
        # what is left are the references of the data itself: their number decides how it is encoded
        @objs = @weak = ();
        return $hashdr ? $e->encode($x, $h) : $e->encode($x);
    }
    die "bad command";
}

serve(\&handle);
