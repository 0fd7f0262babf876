// G01: order of the passes; G02: reported data flow; I01: identities of passes and groups; D01: dot export.
#include "sim.hpp"
#include <algorithm>
#include <array>

using namespace sim;

namespace
{
	struct G
	{
		Env env;
		std::unique_ptr< crg::FrameGraph > graph;
		crg::RunnableGraphPtr run;
		std::vector< std::string > recorded, executed;
		std::vector< crg::FramePass * > passes;
		std::vector< bool > enabled;
		explicit G( std::string name = "fg" ) { graph = std::make_unique< crg::FrameGraph >( *env.handler, name ); }
		~G() { run.reset(); graph.reset(); }
		crg::RunnablePassCreator creator( int i, std::string n )
		{
			if ( int( enabled.size() ) <= i ) enabled.resize( size_t( i + 1 ), true );
			return [this, i, n]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return crg::RunnablePassPtr{ std::make_unique< crg::RunnablePass >( fp, ctx, rg
					, crg::RunnablePass::Callbacks{ []( u32 ){}
						, crg::RunnablePass::GetPipelineStateCallback( []{ return crg::getPipelineState( VK_PIPELINE_STAGE_TRANSFER_BIT ); } )
						, [this, n]( crg::RecordContext &, VkCommandBuffer cb, u32 )
						{
							recorded.push_back( n );
							mv::cmdExec( cb, n, [this, n]{ executed.push_back( n ); } );
						}
						, crg::RunnablePass::GetPassIndexCallback( []{ return 0u; } )
						, crg::RunnablePass::IsEnabledCallback( [this, i]{ return bool( enabled[size_t( i )] ); } ) } ) };
			};
		}
		crg::FramePass & pass( std::string n, crg::FramePassGroup * g = nullptr )
		{
			auto i = int( passes.size() );
			auto & r = g ? g->createPass( n, creator( i, n ) ) : graph->createPass( n, creator( i, n ) );
			passes.push_back( &r );
			return r;
		}
	};

	//------------------------------------------------------------------------------------- G01
	using Adj = std::vector< u32 >;  // for each pass, the mask of those it depends on
	bool acyclic( Adj const & a )
	{
		u32 done = 0, all = ( 1u << a.size() ) - 1;
		for ( bool go = true; go; )
		{
			go = false;
			for ( size_t i = 0; i < a.size(); ++i )
				if ( !( done >> i & 1 ) && ( a[i] & ~done ) == 0 ) { done |= 1u << i; go = true; }
		}
		return done == all;
	}
	std::string adjStr( Adj const & a )
	{
		std::string r;
		for ( size_t i = 0; i < a.size(); ++i )
			for ( size_t j = 0; j < a.size(); ++j )
				if ( a[i] >> j & 1 ) r += "p" + std::to_string( i ) + " depends on p" + std::to_string( j ) + "; ";
		return r;
	}
	void checkOrder( mc::Choices & c, G & g, Adj const & a )
	{
		auto n = a.size();
		bool ok = acyclic( a ), independent = std::any_of( a.begin(), a.end(), []( u32 m ){ return m == 0; } );
		c.note( adjStr( a ) );
		bool thrown = false;
		try { g.run = g.graph->compile( *g.env.ctx ); } catch ( crg::Exception const & ) { thrown = true; }
		mc::compared();
		mc::step( n );
		std::string key;
		for ( auto m : a ) key += std::to_string( m ) + ",";
		if ( ok )
			mc::check( !thrown, "a graph without cycle is refused" );
		else if ( independent )
			mc::check( thrown, "a graph whose dependencies make a cycle is accepted" );
		if ( thrown ) { mc::state( key + "x" ); mc::outcome( "refused" ); mc::count( "refused" ); return; }
		for ( int frame = 0; frame < 2; ++frame )
		{
			g.recorded.clear();
			g.executed.clear();
			for ( auto & s : g.run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
			mv::waitIdle();
			mc::check( g.recorded == g.executed, "the passes aren't executed in the order they are recorded" );
			std::map< std::string, size_t > at;
			for ( auto & nme : g.recorded )
				mc::check( at.emplace( nme, at.size() ).second, "pass " + nme + " is in the graph twice" );
			size_t want = 0;
			for ( size_t i = 0; i < n; ++i )
			{
				auto it = at.find( "p" + std::to_string( i ) );
				if ( !g.enabled[i] ) { mc::check( it == at.end(), "a disabled pass is recorded" ); continue; }
				++want;
				mc::check( it != at.end(), "pass p" + std::to_string( i ) + " is not in the graph" );
			}
			mc::check( at.size() == want, "there are other passes in the graph" );
			if ( ok )
				for ( size_t i = 0; i < n; ++i )
					for ( size_t j = 0; j < n; ++j )
						if ( ( a[i] >> j & 1 ) && g.enabled[i] && g.enabled[j] )
							mc::check( at["p" + std::to_string( j )] < at["p" + std::to_string( i )], "p" + std::to_string( i ) + " comes before p" + std::to_string( j ) + " on which it depends" );
			std::string o;
			for ( auto & s : g.recorded ) o += s;
			mc::outcome( o );
			key += o;
		}
		mc::state( key );
		noErrors( { "life", "submit", "param", "usage" }, "running the graph" );
	}
	// all digraphs on n passes, in a single group
	void digraphs( mc::Choices & c, int n, bool onlyAcyclic )
	{
		Adj a;
		for ( int i = 0; i < n; ++i )
		{
			u32 m = u32( c.pick( 1 << ( n - 1 ), "depends" ) );
			// no dependency on itself
			u32 low = m & ( ( 1u << i ) - 1 ), high = ( m >> i ) << ( i + 1 );
			a.push_back( low | high );
			if ( onlyAcyclic )
			{
				Adj b = a;
				b.resize( size_t( n ), 0u );
				if ( !acyclic( b ) ) c.prune();
			}
		}
		G g;
		for ( int i = 0; i < n; ++i ) g.pass( "p" + std::to_string( i ) );
		for ( int i = 0; i < n; ++i )
			for ( int j = 0; j < n; ++j )
				if ( a[size_t( i )] >> j & 1 ) g.passes[size_t( i )]->addDependency( *g.passes[size_t( j )] );
		checkOrder( c, g, a );
	}
	// acyclic ones, with the passes in groups (the listing order isn't the creation order), some disabled, dependencies given in any order or at once
	void grouped( mc::Choices & c, int n )
	{
		Adj a;
		for ( int i = 0; i < n; ++i )
		{
			u32 m = u32( c.pick( 1 << ( n - 1 ), "depends" ) );
			a.push_back( ( m & ( ( 1u << i ) - 1 ) ) | ( ( m >> i ) << ( i + 1 ) ) );
			Adj b = a;
			b.resize( size_t( n ), 0u );
			if ( !acyclic( b ) ) c.prune();
		}
		G g;
		auto & ga = g.graph->createPassGroup( "a" );
		auto & gb = g.graph->createPassGroup( "b" );
		auto & gs = ga.createPassGroup( "s" );
		std::array< crg::FramePassGroup *, 4 > gr{ nullptr, &ga, &gb, &gs };
		int used = 1;
		for ( int i = 0; i < n; ++i )
			g.pass( "p" + std::to_string( i ), gr[size_t( c.pick( 4, "group" ) )] );
		(void)used;
		bool together = c.flip( "dependencies at once" );
		for ( int i = 0; i < n; ++i )
		{
			crg::FramePassArray l;
			for ( int j = n; j-- > 0; )
				if ( a[size_t( i )] >> j & 1 )
				{
					if ( together ) l.push_back( g.passes[size_t( j )] );
					else g.passes[size_t( i )]->addDependency( *g.passes[size_t( j )] );
				}
			if ( together ) g.passes[size_t( i )]->addDependencies( l );
		}
		int off = c.pick( n + 1, "disabled" );
		if ( off ) g.enabled[size_t( off - 1 )] = false;
		checkOrder( c, g, a );
	}

	//------------------------------------------------------------------------------------- G02, D01
	enum Use { None, R, W, RW };
	// forms of use of a datum
	enum Form { Sampled, Colour, Storage, Transfer, Depth, Part, UBuf, SBuf, TBuf, IBuf, SView, FormCount };
	char const * fname( Form f ) { static char const * n[]{ "sampled/colour", "colour", "storage", "transfer", "depth", "layer", "uniform/storage buffer", "storage buffer", "transfer buffer", "implicit/storage buffer", "storage buffer view" }; return n[f]; }
	bool isBuf( Form f ) { return f >= UBuf; }
	struct Datum { Form form{}; crg::ImageId image; crg::ImageViewId view; crg::Buffer buffer{ VkBuffer{}, "" }; VkBufferView bview{}; std::vector< int > use; std::string name; };

	struct Flow : G
	{
		std::vector< Datum > data;
		std::vector< u32 > deps;
		crg::ImageId partImage{};
		u32 parts{};
		using G::G;
		void datum( Form f, std::string n, std::vector< int > use )
		{
			Datum d;
			d.form = f;
			d.name = n;
			d.use = use;
			if ( isBuf( f ) )
			{
				auto b = mv::makeBuffer( 64 );
				d.buffer = crg::Buffer{ b, n };
				d.bview = mv::makeBufferView( b, 0, 64 );
			}
			else
			{
				// parts of one image
				if ( f == Part )
				{
					if ( !partImage.data ) partImage = graph->createImage( img( "parts", VK_FORMAT_R8G8B8A8_UNORM, 2, 2, 1, 3 ) );
					d.image = partImage;
					d.view = graph->createView( view( n, d.image, VK_IMAGE_VIEW_TYPE_2D, 0, 1, parts++, 1 ) );
					data.push_back( d );
					return;
				}
				d.image = graph->createImage( img( n, f == Depth ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM, 2, 2 ) );
				d.view = graph->createView( view( n, d.image, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			}
			data.push_back( d );
		}
		void declare( int p )
		{
			auto & fp = *passes[size_t( p )];
			u32 b = 0;
			for ( auto & d : data )
			{
				auto u = d.use[size_t( p )];
				if ( !u ) continue;
				switch ( d.form )
				{
				case Sampled: if ( u == R ) fp.addSampledView( d.view, b++ ); else if ( u == W ) fp.addOutputColourView( d.view ); else fp.addInOutColourView( d.view ); break;
				case Colour: if ( u == R ) fp.addInputColourView( d.view ); else if ( u == W ) fp.addOutputColourView( d.view ); else fp.addInOutColourView( d.view ); break;
				case Part:
				case Storage: if ( u == R ) fp.addInputStorageView( d.view, b++ ); else if ( u == W ) fp.addOutputStorageView( d.view, b++ ); else fp.addInOutStorageView( d.view, b++ ); break;
				case Transfer: if ( u == R ) fp.addTransferInputView( d.view ); else if ( u == W ) fp.addTransferOutputView( d.view ); else fp.addTransferInOutView( d.view ); break;
				case Depth: if ( u == R ) fp.addInputDepthView( d.view ); else if ( u == W ) fp.addOutputDepthView( d.view ); else fp.addInOutDepthView( d.view ); break;
				case UBuf: if ( u == R ) fp.addUniformBuffer( d.buffer, b++, 0, 64 ); else if ( u == W ) fp.addOutputStorageBuffer( d.buffer, b++, 0, 64 ); else fp.addInOutStorageBuffer( d.buffer, b++, 0, 64 ); break;
				case SBuf: if ( u == R ) fp.addInputStorageBuffer( d.buffer, b++, 0, 64 ); else if ( u == W ) fp.addClearableOutputStorageBuffer( d.buffer, b++, 0, 64 ); else fp.addInOutStorageBuffer( d.buffer, b++, 0, 64 ); break;
				case TBuf: if ( u == R ) fp.addTransferInputBuffer( d.buffer, 0, 64 ); else if ( u == W ) fp.addTransferOutputBuffer( d.buffer, 0, 64 ); else fp.addTransferInOutBuffer( d.buffer, 0, 64 ); break;
				case IBuf: if ( u == R ) fp.addImplicitBuffer( d.buffer, 0, 64, { VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT } ); else if ( u == W ) fp.addOutputStorageBuffer( d.buffer, b++, 0, 64 ); else fp.addInOutStorageBuffer( d.buffer, b++, 0, 64 ); break;
				case SView: if ( u == R ) fp.addUniformBufferView( d.buffer, d.bview, b++, 0, 64 ); else if ( u == W ) fp.addOutputStorageBufferView( d.buffer, d.bview, b++, 0, 64 ); else fp.addInOutStorageBufferView( d.buffer, d.bview, b++, 0, 64 ); break;
				default: break;
				}
			}
		}
		// is there a path of dependencies from r down to w whose inner passes are all outside of `stop`
		bool path( int r, int w, std::function< bool( int ) > const & stop )const
		{
			for ( int j = 0; j < int( deps.size() ); ++j )
				if ( deps[size_t( r )] >> j & 1 )
				{
					if ( j == w ) return true;
					if ( !stop( j ) && path( j, w, stop ) ) return true;
				}
			return false;
		}
		int nodeOf( crg::FramePass const * p )const
		{
			if ( !p ) return -1;
			for ( size_t i = 0; i < passes.size(); ++i ) if ( passes[i] == p ) return int( i );
			mc::fail( "a transition is about a pass that isn't in the graph" );
		}
	};
	struct Hand { int datum, from, to; bool operator<( Hand const & o )const { return std::tie( datum, from, to ) < std::tie( o.datum, o.from, o.to ); } };

	std::map< Hand, int > hands( Flow & g, crg::AttachmentTransitions const & t )
	{
		std::map< Hand, int > r;
		for ( auto & v : t.viewTransitions )
		{
			int di = -1;
			for ( size_t i = 0; i < g.data.size(); ++i )
				if ( !isBuf( g.data[i].form ) && g.data[i].view == v.data ) di = int( i );
			mc::check( di >= 0, "a transition is about a view that isn't in the graph" );
			++r[{ di, g.nodeOf( v.outputAttach.pass ), g.nodeOf( v.inputAttach.pass ) }];
		}
		for ( auto & v : t.bufferTransitions )
		{
			int di = -1;
			for ( size_t i = 0; i < g.data.size(); ++i )
				if ( isBuf( g.data[i].form ) && g.data[i].buffer.buffer() == v.data.buffer() ) di = int( i );
			mc::check( di >= 0, "a transition is about a buffer that isn't in the graph" );
			++r[{ di, g.nodeOf( v.outputAttach.pass ), g.nodeOf( v.inputAttach.pass ) }];
		}
		return r;
	}
	std::string hstr( Flow & g, Hand h )
	{
		auto n = [&]( int i ){ return i < 0 ? std::string{ "outside" } : "p" + std::to_string( i ); };
		return g.data[size_t( h.datum )].name + " (" + fname( g.data[size_t( h.datum )].form ) + ") from " + n( h.from ) + " to " + n( h.to );
	}
	void checkFlow( mc::Choices & c, Flow & g )
	{
		auto got = hands( g, g.run->getTransitions() );
		for ( auto & [h, k] : got )
			mc::check( k == 1, hstr( g, h ) + " is reported " + std::to_string( k ) + " times" );
		int n = int( g.passes.size() );
		for ( int d = 0; d < int( g.data.size() ); ++d )
		{
			auto & da = g.data[size_t( d )];
			bool anyR = false, anyW = false;
			for ( auto u : da.use ) { anyR = anyR || ( u & R ); anyW = anyW || ( u & W ); }
			for ( int w = 0; w < n; ++w )
				for ( int r = 0; r < n; ++r )
				{
					if ( w == r ) { mc::check( !got.count( { d, w, r } ), hstr( g, { d, w, r } ) + " is reported" ); continue; }
					bool shares = ( da.use[size_t( w )] & W ) && ( da.use[size_t( r )] & R );
					bool must = shares && g.path( r, w, [&]( int i ){ return da.use[size_t( i )] != None; } );
					bool may = shares && g.path( r, w, [&]( int i ){ return ( da.use[size_t( i )] & W ) != 0; } );
					bool is = got.count( { d, w, r } ) != 0;
					mc::check( is || !must, hstr( g, { d, w, r } ) + " is not reported" );
					mc::check( !is || may, hstr( g, { d, w, r } ) + " is reported, while there is no such hand-over" );
				}
			for ( int p = 0; p < n; ++p )
			{
				auto u = da.use[size_t( p )];
				bool in = got.count( { d, -1, p } ) != 0, out = got.count( { d, p, -1 } ) != 0;
				if ( anyR && anyW )
				{
					bool alone = std::count_if( da.use.begin(), da.use.end(), []( int x ){ return x != 0; } ) == 1;
					if ( !alone )
						mc::check( !in && !out, da.name + " is reported as coming from or going outside, while the graph makes and uses it" );
				}
				else if ( u )
					mc::check( in || out, da.name + " of p" + std::to_string( p ) + ", which isn't handed over by another pass, is not reported" );
				else
					mc::check( !in && !out, da.name + " is reported for p" + std::to_string( p ) + " which doesn't use it" );
				if ( !anyW && u && ( da.form == Sampled || da.form == Colour || isBuf( da.form ) ) )
					mc::check( in && !out, da.name + " read by p" + std::to_string( p ) + " and written by none is not reported as coming from outside" );
				if ( !anyR && u )
					mc::check( out && !in, da.name + " written by p" + std::to_string( p ) + " and read by none is not reported as going outside" );
			}
		}
		// the nodes
		std::map< Hand, int > edges;
		std::set< int > seen;
		std::function< void( crg::GraphNode const & ) > visit = [&]( crg::GraphNode const & node )
		{
			auto from = g.nodeOf( crg::getFramePass( node ) );
			if ( !seen.insert( from ).second ) return;
			std::set< crg::GraphNode const * > once;
			for ( auto nx : node.getNext() )
			{
				mc::check( once.insert( nx ).second, "a node is twice after another one" );
				auto to = g.nodeOf( crg::getFramePass( *nx ) );
				for ( auto & [h, k] : hands( g, nx->getInputAttaches( &node ) ) )
				{
					mc::check( h.from == from && h.to == to, "the edge from p" + std::to_string( from ) + " to p" + std::to_string( to ) + " holds " + hstr( g, h ) );
					edges[h] += k;
				}
				visit( *nx );
			}
		};
		auto root = g.run->getGraph();
		mc::check( root && crg::isRootNode( root ), "the graph has no root" );
		for ( auto nx : root->getNext() )
			visit( *nx );
		mc::check( int( seen.size() ) == n, "some passes can't be reached from the root of the graph" );
		for ( auto & [h, k] : got )
			if ( h.from >= 0 && h.to >= 0 )
				mc::check( edges.count( h ) && edges[h] == 1, hstr( g, h ) + " isn't once on the edges of the graph" );
		for ( auto & [h, k] : edges )
			mc::check( got.count( h ) != 0, hstr( g, h ) + " is on an edge, and not in the transitions" );
		std::string key;
		for ( auto & [h, k] : got ) key += std::to_string( h.datum ) + "," + std::to_string( h.from ) + "," + std::to_string( h.to ) + ";";
		mc::state( key );
		mc::outcome( std::to_string( got.size() ) );
		mc::compared();
		mc::step( u64( n ) + got.size() );
		mc::count( "hand-overs", got.size() );
	}
	bool meaningful( Form f, int u ) { return !( f == Colour && false ) && u >= 0; }
	void flow( mc::Choices & c, int n, std::vector< std::vector< Form > > const & sets, bool groups, std::function< void( mc::Choices &, Flow & ) > checkIt )
	{
		Flow g;
		auto & forms = c.of( sets, "forms" );
		g.deps.assign( size_t( n ), 0u );
		for ( int i = 1; i < n; ++i ) g.deps[size_t( i )] = u32( c.pick( 1 << i, "depends" ) );
		for ( size_t d = 0; d < forms.size(); ++d )
		{
			std::vector< int > use;
			bool any = false;
			for ( int i = 0; i < n; ++i ) { use.push_back( c.pick( 4, "use" ) ); any = any || use.back(); }
			if ( !any ) c.prune();
			g.datum( forms[d], "d" + std::to_string( d ), use );
		}
		std::vector< crg::FramePassGroup * > gr( size_t( n ), nullptr );
		if ( groups )
		{
			auto & ga = g.graph->createPassGroup( "ga" );
			auto & gb = g.graph->createPassGroup( "gb" );
			auto & gs = ga.createPassGroup( "gs" );
			std::array< crg::FramePassGroup *, 4 > l{ nullptr, &ga, &gb, &gs };
			for ( int i = 0; i < n; ++i ) gr[size_t( i )] = l[size_t( c.pick( 4, "group" ) )];
		}
		for ( int i = 0; i < n; ++i )
		{
			g.pass( "p" + std::to_string( i ), gr[size_t( i )] );
			for ( int j = 0; j < i; ++j )
				if ( g.deps[size_t( i )] >> j & 1 ) g.passes[size_t( i )]->addDependency( *g.passes[size_t( j )] );
			g.declare( i );
		}
		for ( int i = 0; i < n; ++i )
		{
			std::string s = "p" + std::to_string( i ) + " depends on mask " + std::to_string( g.deps[size_t( i )] );
			for ( auto & d : g.data ) s += ", " + std::string( fname( d.form ) ) + " " + d.name + ": " + std::vector< std::string >{ "-", "R", "W", "RW" }[size_t( d.use[size_t( i )] )];
			c.note( s );
		}
		g.run = g.graph->compile( *g.env.ctx );
		checkIt( c, g );
	}
	// views of parts of an image: hand-overs only between views which share subresources
	void parts( mc::Choices & c )
	{
		G g;
		auto im = g.graph->createImage( img( "im", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 3 ) );
		std::vector< crg::ImageViewId > vs;
		int pick[2];
		std::vector< std::array< u32, 4 > > rs;
		for ( u32 m = 0; m < 2; ++m ) for ( u32 mc_ = 1; m + mc_ <= 2; ++mc_ )
			for ( u32 l = 0; l < 3; ++l ) for ( u32 lc = 1; l + lc <= 3; ++lc )
				rs.push_back( { m, mc_, l, lc } );
		for ( int i = 0; i < 2; ++i )
		{
			pick[i] = c.pick( int( rs.size() ), "range" );
			auto & r = rs[size_t( pick[i] )];
			vs.push_back( g.graph->createView( view( "v" + std::to_string( i ), im, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r[0], r[1], r[2], r[3] ) ) );
		}
		bool storage = c.flip( "storage reader" ) ;
		auto & a = g.pass( "w" );
		auto & b = g.pass( "r" );
		a.addOutputStorageView( vs[0], 0u );
		if ( storage ) b.addInputStorageView( vs[1], 0u ); else b.addSampledView( vs[1], 0u );
		b.addDependency( a );
		auto & x = rs[size_t( pick[0] )];
		auto & y = rs[size_t( pick[1] )];
		auto cut = []( u32 a0, u32 an, u32 b0, u32 bn ){ return a0 < b0 + bn && b0 < a0 + an; };
		bool overlap = cut( x[0], x[1], y[0], y[1] ) && cut( x[2], x[3], y[2], y[3] );
		auto s = []( std::array< u32, 4 > const & r ){ return "levels " + std::to_string( r[0] ) + "+" + std::to_string( r[1] ) + " layers " + std::to_string( r[2] ) + "+" + std::to_string( r[3] ); };
		c.note( "written: " + s( x ) + ", read: " + s( y ) );
		g.run = g.graph->compile( *g.env.ctx );
		int ab = 0, ext = 0, extW = 0, extR = 0;
		for ( auto & t : g.run->getTransitions().viewTransitions )
		{
			if ( t.outputAttach.pass == &a && t.inputAttach.pass == &b ) ++ab;
			else
			{
				mc::check( !t.outputAttach.pass || !t.inputAttach.pass, "a transition between other passes is reported" );
				++ext;
				auto p = t.outputAttach.pass ? t.outputAttach.pass : t.inputAttach.pass;
				if ( p == &a ) ++extW;
				if ( p == &b ) ++extR;
			}
		}
		if ( x == y )
			mc::check( ab == 1 && ext == 0, "the hand-over of a view is not reported once" );
		if ( !overlap )
		{
			mc::check( ab == 0, "a hand-over is reported between views which share nothing" );
			mc::check( extW == 1, "the view written, which nobody reads, is not reported as going outside" );
			mc::check( extR == 1, "the view read, which nobody writes, is not reported as coming from outside" );
		}
		mc::state( std::to_string( pick[0] * 100 + pick[1] ) + "/" + std::to_string( ab ) + std::to_string( ext ) );
		mc::outcome( std::to_string( ab ) + std::to_string( ext ) );
		mc::compared();
		mc::step( 2 );
	}
	// views of a volume, and views of its slices
	void volumes( mc::Choices & c )
	{
		G g;
		auto im = g.graph->createImage( img( "im", VK_FORMAT_R8G8B8A8_UNORM, 8, 8, 2, 1, VK_IMAGE_TYPE_3D, 4, VK_IMAGE_CREATE_2D_ARRAY_COMPATIBLE_BIT ) );
		struct V { VkImageViewType type; u32 level, levels, first, count; };
		std::vector< V > rs{ { VK_IMAGE_VIEW_TYPE_3D, 0, 1, 0, 1 }, { VK_IMAGE_VIEW_TYPE_3D, 1, 1, 0, 1 }, { VK_IMAGE_VIEW_TYPE_3D, 0, 2, 0, 1 } };
		for ( u32 m = 0; m < 2; ++m ) for ( u32 l = 0; l < 4u >> m; ++l ) for ( u32 n = 1; l + n <= 4u >> m; ++n )
			rs.push_back( { n == 1 ? VK_IMAGE_VIEW_TYPE_2D : VK_IMAGE_VIEW_TYPE_2D_ARRAY, m, 1, l, n } );
		auto slices = []( V const & v )
		{
			std::set< int > r;
			for ( u32 m = v.level; m < v.level + v.levels; ++m )
			{
				u32 f = v.type == VK_IMAGE_VIEW_TYPE_3D ? 0u : v.first;
				u32 n = v.type == VK_IMAGE_VIEW_TYPE_3D ? 4u >> m : v.count;
				for ( u32 l = f; l < f + n; ++l ) r.insert( int( m * 4 + l ) );
			}
			return r;
		};
		auto name = []( V const & v ){ return std::string( v.type == VK_IMAGE_VIEW_TYPE_3D ? "volume" : "slices " + std::to_string( v.first ) + "+" + std::to_string( v.count ) ) + " of levels " + std::to_string( v.level ) + "+" + std::to_string( v.levels ); };
		auto & x = c.of( rs, "written" );
		auto & y = c.of( rs, "read" );
		auto vx = g.graph->createView( view( "v0", im, x.type, x.level, x.levels, x.first, x.count ) );
		auto vy = g.graph->createView( view( "v1", im, y.type, y.level, y.levels, y.first, y.count ) );
		auto & a = g.pass( "w" );
		auto & b = g.pass( "r" );
		a.addOutputStorageView( vx, 0u );
		if ( c.flip( "storage reader" ) ) b.addInputStorageView( vy, 0u ); else b.addSampledView( vy, 0u );
		b.addDependency( a );
		c.note( "written: " + name( x ) + ", read: " + name( y ) );
		g.run = g.graph->compile( *g.env.ctx );
		int ab = 0, extW = 0, extR = 0;
		for ( auto & t : g.run->getTransitions().viewTransitions )
		{
			if ( t.outputAttach.pass == &a && t.inputAttach.pass == &b ) ++ab;
			else
			{
				mc::check( !t.outputAttach.pass || !t.inputAttach.pass, "a transition between other passes is reported" );
				auto p = t.outputAttach.pass ? t.outputAttach.pass : t.inputAttach.pass;
				if ( p == &a ) ++extW;
				if ( p == &b ) ++extR;
			}
		}
		auto sx = slices( x );
		auto sy = slices( y );
		if ( sx == sy )
			mc::check( ab >= 1, "the hand-over of the slices a pass writes to the pass reading them isn't reported" );
		if ( !std::any_of( sx.begin(), sx.end(), [&]( int s ){ return sy.count( s ) != 0; } ) )
		{
			mc::check( ab == 0, "a hand-over is reported between views which share nothing" );
			mc::check( extW == 1, "the view written, which nobody reads, is not reported as going outside" );
			mc::check( extR == 1, "the view read, which nobody writes, is not reported as coming from outside" );
		}
		mc::state( name( x ) + name( y ) + std::to_string( ab ) + std::to_string( extW ) + std::to_string( extR ) );
		mc::outcome( std::to_string( ab ) + std::to_string( extW ) + std::to_string( extR ) );
		mc::compared();
		mc::step( 2 );
	}
	// a pass reads the union of views written by others
	void merged( mc::Choices & c )
	{
		G g;
		int n = c.pick( 2, "sources" ) + 2;
		bool mips = c.flip( "levels" );
		auto im = g.graph->createImage( img( "im", VK_FORMAT_R8G8B8A8_UNORM, 8, 8, mips ? u32( n ) : 1u, mips ? 1u : u32( n ) ) );
		crg::ImageViewIdArray vs;
		for ( int i = 0; i < n; ++i )
			vs.push_back( g.graph->createView( view( "v" + std::to_string( i ), im, VK_IMAGE_VIEW_TYPE_2D, mips ? u32( i ) : 0u, 1, mips ? 0u : u32( i ), 1 ) ) );
		u32 writers = u32( c.pick( 1 << n, "writers" ) );
		if ( !writers ) c.prune();
		int kind = c.pick( 2, "reader" );
		std::vector< crg::FramePass * > w( size_t( n ), nullptr );
		for ( int i = 0; i < n; ++i )
			if ( writers >> i & 1 )
			{
				w[size_t( i )] = &g.pass( "w" + std::to_string( i ) );
				w[size_t( i )]->addOutputStorageView( vs[size_t( i )], 0u );
			}
		auto & r = g.pass( "r" );
		auto mv_ = r.mergeViews( vs, mips, !mips );
		if ( kind ) r.addInputStorageView( mv_, 0u ); else r.addSampledView( mv_, 0u );
		for ( auto p : w ) if ( p ) r.addDependency( *p );
		g.run = g.graph->compile( *g.env.ctx );
		std::map< std::pair< int, int >, int > got;  // writer, source
		for ( auto & t : g.run->getTransitions().viewTransitions )
			for ( int i = 0; i < n; ++i )
				if ( w[size_t( i )] && t.outputAttach.pass == w[size_t( i )] && t.inputAttach.pass == &r )
				{
					int src = -1;
					for ( int j = 0; j < n; ++j ) if ( t.data == vs[size_t( j )] ) src = j;
					++got[{ i, src }];
				}
		for ( int i = 0; i < n; ++i )
			if ( writers >> i & 1 )
				mc::check( got[{ i, i }] == 1, "the hand-over of v" + std::to_string( i ) + " to the pass which reads the union of the views is reported " + std::to_string( got[{ i, i }] ) + " times" );
		for ( auto & [k, v] : got )
			mc::check( k.first == k.second || !v, "a writer is said to hand over a view it doesn't write" );
		mc::state( std::to_string( n * 100 + int( writers ) ) + ( mips ? "m" : "l" ) );
		mc::outcome( std::to_string( writers ) );
		mc::compared();
		mc::step( u64( n ) );
	}

	//------------------------------------------------------------------------------------- D01
	struct Dot { std::map< std::pair< std::string, std::string >, std::map< std::string, int > > edges; std::map< std::string, int > nodes; std::map< std::string, std::string > ids; int depth{}; };
	// the statements of a dot text; fails if the text isn't well formed
	void parseDot( std::string const & text, Dot & d )
	{
		std::istringstream in( text );
		std::string line;
		int depth = 0;
		while ( std::getline( in, line ) )
		{
			auto b = line.find_first_not_of( ' ' );
			if ( b == std::string::npos ) continue;
			line = line.substr( b );
			auto quoted = [&]( size_t & pos )
			{
				mc::check( line[pos] == '"', "dot: name expected in: " + line );
				auto e = line.find( '"', pos + 1 );
				mc::check( e != std::string::npos, "dot: unterminated name in: " + line );
				auto r = line.substr( pos + 1, e - pos - 1 );
				pos = e + 1;
				return r;
			};
			if ( line[0] == '"' )
			{
				mc::check( depth > 0, "dot: statement out of a graph: " + line );
				size_t p = 0;
				auto a = quoted( p );
				if ( line.compare( p, 4, " -> " ) == 0 )
				{
					p += 4;
					auto bb = quoted( p );
					auto l = line.find( "label=\"", p );
					mc::check( l != std::string::npos, "dot: edge without label: " + line );
					l += 6;
					++d.edges[{ a, bb }][quoted( l )];
				}
				else
				{
					++d.nodes[a];
					auto i = line.find( " id=\"" );
					if ( i != std::string::npos ) { i += 4; d.ids[a] = quoted( i ); }
				}
				mc::check( line.find( "];" ) != std::string::npos, "dot: unterminated statement: " + line );
			}
			else if ( line.find( '{' ) != std::string::npos )
			{
				mc::check( depth > 0 ? line.rfind( "subgraph", 0 ) == 0 : line.rfind( "digraph", 0 ) == 0, "dot: misplaced graph: " + line );
				++depth;
			}
			else if ( line[0] == '}' )
				mc::check( --depth >= 0, "dot: too many }" );
		}
		mc::check( depth == 0, "dot: unbalanced { }" );
	}
	void checkDot( mc::Choices & c, Flow & g, bool few )
	{
		int m = few ? std::vector< int >{ 0, 7, 12, 11 }[size_t( c.pick( 4, "config" ) )] : c.pick( 16, "config" );
		crg::dot::Config cfg{ ( m & 1 ) != 0, ( m & 2 ) != 0, ( m & 4 ) != 0, ( m & 8 ) != 0 };
		for ( int which = 0; which < 2; ++which )
		{
			std::ostringstream o;
			if ( which ) crg::dot::displayTransitions( o, *g.run, cfg );
			else crg::dot::displayPasses( o, *g.run, cfg );
			c.note( o.str() );
			Dot d;
			parseDot( o.str(), d );
			auto name = [&]( int i ){ return g.passes[size_t( i )]->getGroupName(); };
			std::map< std::tuple< std::string, std::string, std::string >, int > want, got;
			std::set< std::string > known{ "ExternalSource", "ExternalDestination" };
			auto one = [&]( crg::Attachment const & out, crg::Attachment const & in, std::string const & data )
			{
				if ( which == 0 )
				{
					if ( !out.pass || !in.pass ) return;
					++want[{ out.pass->getGroupName(), "Transition to\\n" + in.name, data }];
					++want[{ "Transition to\\n" + in.name, in.pass->getGroupName(), data }];
					known.insert( "Transition to\\n" + in.name );
				}
				else
				{
					auto n = out.name + "\\ntransition to\\n" + in.name;
					++want[{ out.pass ? out.pass->getGroupName() : "ExternalSource", n, data }];
					++want[{ n, in.pass ? in.pass->getGroupName() : "ExternalDestination", data }];
					known.insert( n );
				}
				if ( !cfg.splitGroups || ( out.pass && in.pass ) )
					for ( auto p : { out.pass, in.pass } )
						if ( p )
						{
							mc::check( d.nodes.count( p->getGroupName() ), "dot: pass " + p->getGroupName() + " is missing" );
							if ( cfg.withIds ) mc::check( d.ids[p->getGroupName()] == std::to_string( p->id ), "dot: wrong id of " + p->getGroupName() );
						}
			};
			for ( auto & t : g.run->getTransitions().viewTransitions ) one( t.outputAttach, t.inputAttach, t.data.data->name );
			for ( auto & t : g.run->getTransitions().bufferTransitions ) one( t.outputAttach, t.inputAttach, t.data.name );
			for ( size_t i = 0; i < g.passes.size(); ++i ) known.insert( name( int( i ) ) );
			for ( auto & [k, ls] : d.edges )
				for ( auto & [l, n] : ls )
					got[{ k.first, k.second, l }] += n;
			// in split mode what comes from or goes outside belongs to no group
			auto outside = [&]( std::tuple< std::string, std::string, std::string > const & k ){ return cfg.splitGroups && which; };
			for ( auto & [k, n] : want )
				if ( !outside( k ) || got.count( k ) )
					mc::check( got[k] == n, "dot: the edge " + std::get< 0 >( k ) + " -> " + std::get< 1 >( k ) + " for " + std::get< 2 >( k ) + " is " + std::to_string( got[k] ) + " times instead of " + std::to_string( n ) );
			for ( auto & [k, n] : got )
				if ( n ) mc::check( want.count( k ), "dot: the edge " + std::get< 0 >( k ) + " -> " + std::get< 1 >( k ) + " is no transition of the graph" );
			for ( auto & [n, k] : d.nodes )
			{
				mc::check( known.count( n ), "dot: unknown node " + n );
			}
			mc::state( o.str() );
			mc::outcome( std::to_string( d.edges.size() ) );
			mc::step( d.edges.size() + 1 );
		}
		mc::compared();
	}

	//------------------------------------------------------------------------------------- I01
	void identities( mc::Choices & c, int depth )
	{
		G g( "fg" );
		struct Gr { crg::FramePassGroup * g; int parent; std::string name; };
		std::vector< Gr > groups{ { &g.graph->getDefaultGroup(), -1, "fg" } };
		struct Pa { int group; std::string name; crg::FramePass * p; };
		std::vector< Pa > passes;
		std::vector< std::string > names{ "x", "y" };
		auto full = [&]( int i ){ std::string r; for ( int k = i; k > 0; k = groups[size_t( k )].parent ) r = "/" + groups[size_t( k )].name + r; return "fg" + r; };
		for ( int s = 0; s < depth; ++s )
		{
			bool grp = c.flip( "group" );
			int at = c.pick( int( groups.size() ), "in" );
			auto n = c.of( names, "name" );
			c.note( std::string( grp ? "group " : "pass " ) + full( at ) + "/" + n );
			mc::step();
			if ( grp )
			{
				auto & r = at == 0 && c.flip( "through the graph" ) ? g.graph->createPassGroup( n ) : groups[size_t( at )].g->createPassGroup( n );
				int known = -1;
				for ( size_t i = 0; i < groups.size(); ++i ) if ( groups[i].parent == at && groups[i].name == n ) known = int( i );
				if ( known >= 0 )
					mc::check( groups[size_t( known )].g == &r, "another group is made with the name of an existing one" );
				else
				{
					for ( auto & o : groups )
					{
						mc::check( o.g != &r, "two groups are the same" );
						mc::check( o.g->id != r.id, "two groups have the same id" );
					}
					groups.push_back( { &r, at, n } );
				}
			}
			else
			{
				bool dup = false;
				for ( auto & p : passes ) dup = dup || ( p.group == at && p.name == n );
				bool thrown = false;
				crg::FramePass * r{};
				try { r = &( at == 0 && s % 2 == 0 ? g.graph->createPass( n, g.creator( int( passes.size() ), n ) ) : groups[size_t( at )].g->createPass( n, g.creator( int( passes.size() ), n ) ) ); }
				catch ( crg::Exception const & ) { thrown = true; }
				mc::check( thrown == dup, dup ? "a second pass with the same name is accepted in a group" : "a pass is refused, while there is none of this name in its group" );
				if ( !thrown )
				{
					for ( auto & o : passes ) mc::check( o.p->id != r->id, "two passes have the same id" );
					passes.push_back( { at, n, r } );
				}
			}
			std::string key;
			for ( size_t i = 0; i < groups.size(); ++i )
			{
				auto & o = *groups[i].g;
				mc::check( o.getName() == groups[i].name, "a group changed of name" );
				mc::check( o.getFullName() == full( int( i ) ), "the full name of the group " + full( int( i ) ) + " is " + o.getFullName() );
				mc::check( groups[i].parent < 0 ? o.parent == nullptr : o.parent == groups[size_t( groups[i].parent )].g, "a group changed of parent" );
				key += full( int( i ) ) + ";";
			}
			for ( auto & p : passes )
			{
				mc::check( p.p->getName() == p.name, "a pass changed of name" );
				mc::check( &p.p->group == groups[size_t( p.group )].g, "a pass changed of group" );
				mc::check( p.p->getFullName() == full( p.group ) + "/" + p.name, "the full name of the pass is " + p.p->getFullName() );
				key += p.p->getFullName() + ",";
			}
			mc::state( key );
		}
		// what was refused left no trace: each pass works once
		bool thrown = false;
		try { g.run = g.graph->compile( *g.env.ctx ); } catch ( crg::Exception const & ) { thrown = true; }
		mc::check( thrown == passes.empty(), thrown ? "the graph is refused" : "a graph without pass is accepted" );
		if ( !thrown )
		{
			for ( auto & s : g.run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
			mc::check( g.executed.size() == passes.size(), "the passes don't work once each" );
		}
		mc::outcome( std::to_string( passes.size() ) + "/" + std::to_string( groups.size() ) );
		mc::compared();
	}
}

int main( int argc, char ** argv )
{
	auto T = []{ return mc::thorough(); };
	std::vector< std::vector< Form > > single;
	for ( int f = 0; f < FormCount; ++f ) single.push_back( { Form( f ) } );
	std::vector< std::vector< Form > > pairs{ { Sampled, Sampled }, { Storage, UBuf }, { UBuf, SBuf }, { Depth, Colour }, { Part, Part } };
	std::vector< mc::Property > props;
	props.push_back( { "G01", {
		{ "digraphs1", []( mc::Choices & c ){ digraphs( c, 1, false ); }, 1 },
		{ "digraphs2", []( mc::Choices & c ){ digraphs( c, 2, false ); }, 2 },
		{ "digraphs3", []( mc::Choices & c ){ digraphs( c, 3, false ); }, 2 },
		{ "digraphs4", []( mc::Choices & c ){ digraphs( c, 4, false ); }, 2 },
		{ "acyclic5", []( mc::Choices & c ){ digraphs( c, 5, true ); }, 2 },
		{ "grouped3", []( mc::Choices & c ){ grouped( c, 3 ); }, 3 },
		{ "grouped4", [T]( mc::Choices & c ){ if ( !T() ) c.prune(); grouped( c, 4 ); }, 3 },
		{ "digraphs5", [T]( mc::Choices & c ){ if ( !T() ) c.prune(); digraphs( c, 5, false ); }, 2 },
		{ "acyclic6", [T]( mc::Choices & c ){ if ( !T() ) c.prune(); digraphs( c, 6, true ); }, 2 },
	} } );
	props.push_back( { "G02", {
		{ "flow2", [single]( mc::Choices & c ){ flow( c, 2, single, false, checkFlow ); }, 2 },
		{ "flow3", [single]( mc::Choices & c ){ flow( c, 3, single, false, checkFlow ); }, 3 },
		{ "flow4", [single]( mc::Choices & c ){ flow( c, 4, single, false, checkFlow ); }, 4 },
		{ "two data", [pairs]( mc::Choices & c ){ flow( c, 3, pairs, false, checkFlow ); }, 4 },
		{ "parts", []( mc::Choices & c ){ parts( c ); }, 1 },
		{ "volumes", []( mc::Choices & c ){ volumes( c ); }, 1 },
		{ "merged", []( mc::Choices & c ){ merged( c ); }, 2 },
		{ "flow5", [T]( mc::Choices & c ){ if ( !T() ) c.prune(); flow( c, 5, { { Sampled }, { SBuf } }, false, checkFlow ); }, 5 },
	} } );
	props.push_back( { "D01", {
		{ "flow2", [single, T]( mc::Choices & c ){ flow( c, 2, single, true, [T]( mc::Choices & k, Flow & g ){ checkDot( k, g, !T() ); } ); }, 3 },
		{ "flow3", [T]( mc::Choices & c ){ flow( c, 3, T() ? std::vector< std::vector< Form > >{ { Sampled }, { UBuf } } : std::vector< std::vector< Form > >{ { Sampled } }, true, [T]( mc::Choices & k, Flow & g ){ checkDot( k, g, !T() ); } ); }, 4 },
		{ "two data", [T]( mc::Choices & c ){ flow( c, 2, { { Sampled, UBuf }, { Storage, Sampled } }, true, [T]( mc::Choices & k, Flow & g ){ checkDot( k, g, !T() ); } ); }, 4 },
		{ "flow4", [T]( mc::Choices & c ){ if ( !T() ) c.prune(); flow( c, 4, { { Sampled } }, true, []( mc::Choices & k, Flow & g ){ checkDot( k, g, true ); } ); }, 5 },
	} } );
	props.push_back( { "I01", {
		{ "sequences", [T]( mc::Choices & c ){ identities( c, T() ? 7 : 5 ); }, 3 },
	} } );
	return mc::mainLoop( argc, argv, props );
}
