package Verif::Audit;
our $VERSION = '1';
require XSLoader;
XSLoader::load();
1;
