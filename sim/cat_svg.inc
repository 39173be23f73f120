// SVG import (universe "d")
Q( "svg.import", "*Xg", F_MOD|F_FACTORY|F_IDEM|F_IMPORT, tinyxml2::XMLDocument doc; doc.Parse( c.a[1].str, c.a[1].len ); svg::Visitor v; doc.Accept( &v ); { TVx t( v.get() ); o_X(0).swap( t ); } )
Q( "svg.importfile", "*Xtg", F_MOD|F_FACTORY|F_IDEM|F_IMPORT|F_FILE, \
	{ Pause p; simPutFile( TXT(1).c_str(), c.a[2].str, c.a[2].len ); } \
	tinyxml2::XMLDocument doc; out( (int)doc.LoadFile( TXT(1).c_str() ) ); svg::Visitor v; doc.Accept( &v ); { TVx t( v.get() ); o_X(0).swap( t ); } )
Q( "svg.load", "*Xt", F_MOD|F_FACTORY|F_IDEM|F_IMPORT|F_FILE, \
	tinyxml2::XMLDocument doc; out( (int)doc.LoadFile( TXT(1).c_str() ) ); svg::Visitor v; doc.Accept( &v ); { TVx t( v.get() ); o_X(0).swap( t ); } )
Q( "svg.attrib", "g", F_IMPORT|F_STDIO, tinyxml2::XMLDocument doc; doc.Parse( c.a[0].str, c.a[0].len ); svg::printFileAttrib( doc ) )
Q( "svg.imgsize", "g", F_IMPORT, tinyxml2::XMLDocument doc; doc.Parse( c.a[0].str, c.a[0].len ); out( svg::getImgSize( doc ) ) )
Q( "svg.path", "t", F_IMPORT, std::string s( TXT(0) ); auto r = svg::svgp::parsePath( s.c_str() ); out( r.first ); out( r.second ) )
Q( "svg.points", "t", F_IMPORT, std::string s( "<svg><polygon points=\"" ); s += TXT(0); s += "\"/><polyline points=\""; s += TXT(0); s += "\"/></svg>"; \
	tinyxml2::XMLDocument doc; doc.Parse( s.c_str(), s.size() ); svg::Visitor v; doc.Accept( &v ); out( v.get() ) )
Q( "svg.rotattr", "t", F_IMPORT, std::string s( "<svg><ellipse cx=\"5\" cy=\"6\" rx=\"4\" ry=\"2\" transform=\"" ); s += TXT(0); s += "\"/></svg>"; \
	tinyxml2::XMLDocument doc; doc.Parse( s.c_str(), s.size() ); svg::Visitor v; doc.Accept( &v ); out( v.get() ) )
// the elements imported until the end, or until the import throws
Q( "svg.visit", "g", F_IMPORT, tinyxml2::XMLDocument doc; doc.Parse( c.a[0].str, c.a[0].len ); svg::Visitor v; \
	out( (int)doc.ErrorID() ); bool threw=false; try { doc.Accept( &v ); } catch( const std::runtime_error& ) { threw=true; } \
	out( threw ); for( const auto& e: v.get() ) { out_tag( "element" ); out( e ); } )
// the same, both documents read by one visitor
Q( "svg.visit2", "gg", F_IMPORT, tinyxml2::XMLDocument d1, d2; d1.Parse( c.a[0].str, c.a[0].len ); d2.Parse( c.a[1].str, c.a[1].len ); svg::Visitor v; \
	bool threw=false; for( auto* d: { &d1, &d2 } ) { try { d->Accept( &v ); } catch( const std::runtime_error& ) { threw=true; } } \
	out( threw ); for( const auto& e: v.get() ) { out_tag( "element" ); out( e ); } )
