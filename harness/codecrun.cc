// Runs a file of codec operations in this build and prints the outcome of each.
#include "codecrun.hh"
#include <fstream>
#include <iostream>
int main( int, char ** argv )
{
  std::ifstream f( argv[ 1 ], std::ios::binary ); Bytes b( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() );
  for ( auto & l : codecrun::run( codecrun::read( b ) ) ) std::cout << l << "\n";
}
