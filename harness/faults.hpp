	//************************************************************************************************
	// R02: every device call that may fail does, once
	// runs `op` with its n-th fallible call failing; true when the failure was reached
	struct Fault
	{
		bool reached{}, threw{};
		std::string name, what;
	};
	Fault withFault( int n, VkResult r, std::function< void() > op )
	{
		Fault f;
		mv::w->faultName.clear();
		mv::w->faultResult = r;
		mv::w->faultAt = mv::w->fallible + n;
		try { op(); }
		catch ( crg::Exception & e ) { f.threw = true; f.what = e.what(); }
		mv::w->faultAt = -1;
		f.name = mv::w->faultName;
		f.reached = !f.name.empty();
		return f;
	}
	void faultResources( mc::Choices & ch )
	{
		Env env;
		int op = ch.pick( 8, "operation" );
		if ( ch.flip( "handles are reused" ) ) mv::w->reuse = true;
		mv::w->bufferTypeBits = ch.flip( "non coherent memory" ) ? 4 : 7;
		bool before = ch.flip( "other resources exist" );
		int fault = ch.pick( 8, "failing call" );
		int twice = ch.pick( 4, "failing call of the second try" ) - 1;
		auto cache = std::make_unique< crg::ResourcesCache >( *env.handler );
		auto im = env.handler->createImageId( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 2 ) );
		auto im2 = env.handler->createImageId( img( "j", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 2 ) );
		auto v = env.handler->createViewId( sim::view( "v", im, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
		auto v2 = env.handler->createViewId( sim::view( "w", im2, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
		if ( before )
		{
			cache->createImageView( *env.ctx, v2 );
			cache->createSampler( *env.ctx, crg::SamplerDesc{ VK_FILTER_LINEAR } );
			cache->createQuadTriVertexBuffer( *env.ctx, true, crg::Texcoord{ true, true } );
		}
		u64 got{};
		crg::VertexBuffer const * vb{};
		auto run = [&]
		{
			got = 0;
			vb = nullptr;
			switch ( op )
			{
			case 0: got = mv::h( cache->createImage( *env.ctx, im ) ); break;
			case 1: got = mv::h( cache->createImageView( *env.ctx, v ) ); break;
			case 2: got = mv::h( cache->createSampler( *env.ctx, crg::SamplerDesc{} ) ); break;
			case 3: vb = &cache->createQuadTriVertexBuffer( *env.ctx, true, crg::Texcoord{} ); break;
			case 4: got = mv::h( env.handler->createImage( *env.ctx, im ).first ); break;
			case 5: got = mv::h( env.handler->createImageView( *env.ctx, v ).first ); break;
			case 6: got = mv::h( env.handler->createSampler( *env.ctx, "s", crg::SamplerDesc{} ) ); break;
			default: vb = env.handler->createQuadTriVertexBuffer( *env.ctx, "q", true, crg::Texcoord{} ); break;
			}
		};
		auto alive = mv::aliveCount();
		bool viewOp = op == 1 || op == 5;
		for ( int n : { fault, twice } )
		{
			if ( n < 0 ) break;
			auto f = withFault( n, VK_ERROR_OUT_OF_DEVICE_MEMORY, run );
			mc::step();
			if ( !f.reached ) { ch.prune(); }
			std::string where = "when " + f.name + " fails";
			noErrors( AllCats, where );
			if ( f.threw )
			{
				// what the view needed may stay, as long as somebody owns it
				if ( !viewOp ) mc::check( mv::aliveCount() == alive, where + ": left behind: " + mv::aliveList() );
			}
			else
				mc::check( f.name == "FlushMappedMemoryRanges" && vb && !mv::w->memories.at( mv::h( vb->memory ) ).dirty, where + ": the failure isn't reported" );
			mc::outcome( n2( u64( op ) ) + f.name + n2( f.threw ) );
			mc::state( n2( u64( op ) ) + f.name + mv::aliveList() );
		}
		run();
		if ( op == 3 || op == 7 )
		{
			mc::check( vb && mv::w->buffers.count( mv::h( vb->buffer.buffer() ) ) && mv::w->memories.count( mv::h( vb->memory ) ), "no vertex buffer once the call succeeds" );
			mc::check( mv::w->buffers.at( mv::h( vb->buffer.buffer() ) ).mem == mv::h( vb->memory ) && vb->vertexAttribs.size() == 2 && !mv::w->memories.at( mv::h( vb->memory ) ).dirty, "the vertex buffer isn't usable" );
		}
		else if ( op == 2 || op == 6 ) mc::check( mv::w->samplers.count( got ), "no sampler once the call succeeds" );
		else if ( viewOp ) mc::check( mv::w->views.count( got ) && mv::w->images.count( mv::h( mv::w->views.at( got ).info.image ) ) && mv::w->images.at( mv::h( mv::w->views.at( got ).info.image ) ).mem, "no view of a usable image once the call succeeds" );
		else mc::check( mv::w->images.count( got ) && mv::w->images.at( got ).mem, "no usable image once the call succeeds" );
		noErrors( AllCats, "once the call succeeds" );
		if ( op == 4 ) env.handler->destroyImage( *env.ctx, im );
		if ( op == 5 ) { env.handler->destroyImageView( *env.ctx, v ); env.handler->destroyImage( *env.ctx, im ); }
		if ( op == 6 ) env.handler->destroySampler( *env.ctx, VkSampler( got ) );
		if ( op == 7 ) env.handler->destroyVertexBuffer( *env.ctx, vb );
		cache.reset();
		env.close( true );
		noErrors( AllCats, "at the end" );
		mc::compared();
	}
