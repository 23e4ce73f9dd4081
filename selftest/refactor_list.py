RD = '''      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
      if (is.fail())
         throw(EIOError("Can't read WF from stream"));

      char* buf = new char[size];
      is.read(buf, size);
      if (is.fail() || ! grid_sys.header.ParseFromArray(buf, size) ) {
         delete[] buf;
         throw(EIOError("Can't read WF from stream"));
      }

      delete[] buf;
'''
WG = "qdlib/WFGridSystem.cpp"
r("read-helper-throws", "C03 C04 C05", (WG, "   void WFGridSystem::DeSerialize", '''   static void readAll(std::istream& is, char* p, size_t n)
   {
      is.read(p, n);
      if (is.fail())
         throw(EIOError("Can't read WF from stream"));
   }

   void WFGridSystem::DeSerialize'''), (WG, '''      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
      if (is.fail())
         throw(EIOError("Can't read WF from stream"));
''', "      readAll(is, reinterpret_cast<char*>(&size), sizeof(uint32_t));\n"))
r("read-helper-bool", "C03 C04 C05", (WG, "   void WFGridSystem::DeSerialize", '''   static bool readAll(std::istream& is, char* p, size_t n)
   {
      is.read(p, n);
      return !is.fail();
   }

   void WFGridSystem::DeSerialize'''), (WG, '''      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
      if (is.fail())
         throw(EIOError("Can't read WF from stream"));
''', "      if (!readAll(is, reinterpret_cast<char*>(&size), sizeof(uint32_t)))\n         throw(EIOError(\"Can't read WF from stream\"));\n"))
r("read-inverted", "C03 C04", (WG, RD, '''      if (!is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t)))
         throw(EIOError("Can't read WF from stream"));

      char* buf = new char[size];
      is.read(buf, size);
      bool ok = is.good();
      if (ok)
         ok = grid_sys.header.ParseFromArray(buf, size);
      delete[] buf;

      if (!ok)
         throw(EIOError("Can't read WF from stream"));
'''))
r("read-ok-and", "C03 C04", (WG, RD, '''      bool ok = !is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t)).fail();
      if (!ok) throw(EIOError("Can't read WF from stream"));

      char* buf = new char[size];
      is.read(buf, size);
      ok = is.good() && grid_sys.header.ParseFromArray(buf, size);
      delete[] buf;

      if (ok == false)
         throw(EIOError("Can't read WF from stream"));
'''))
r("read-vector-gcount", "C03 C04", (WG, RD, '''      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
      if (is.gcount() != sizeof(uint32_t))
         throw(EIOError("Can't read WF from stream"));

      std::vector<char> buf(size);
      is.read(buf.data(), size);
      const std::streamsize got = is.gcount();
      if (got == size && grid_sys.header.ParseFromArray(buf.data(), size)) {
      } else
         throw(EIOError("Can't read WF from stream"));
'''), (WG, "namespace QDLIB {", "#include <vector>\nnamespace QDLIB {"))
r("read-nested-if", "C03 C04", (WG, RD, '''      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
      char* buf = NULL;
      bool parsed = false;
      if (is.good()) {
         buf = new char[size];
         is.read(buf, size);
         if (!is.fail())
            parsed = grid_sys.header.ParseFromArray(buf, size);
      }
      delete[] buf;
      if (!parsed) throw(EIOError("Can't read WF from stream"));
'''))
WB = "qdlib/WFBuffer.cpp"
r("write-helper", "C03 C05", (WB, '''            file.close();

            if (file.fail())
               throw(EIOError("WFBuffer: Can't write to temporary file", _GetFileName(i)));
''', '''            closeOut(file, _GetFileName(i));
'''), (WB, "   void WFBuffer::_MoveToDisk", '''   static void closeOut(std::ofstream& f, const std::string& name)
   {
      f.close();
      if (f.good()) return;
      throw(EIOError("WFBuffer: Can't write to temporary file", name));
   }

   void WFBuffer::_MoveToDisk'''))
r("write-flag", "C03 C05", (WB, '''            if (file.fail())
               throw(EIOError("WFBuffer: Can't write to temporary file", _GetFileName(i)));
''', '''            const bool written = !file.fail() && file.good();
            const std::string fname = _GetFileName(i);
            if (!written)
               throw(EIOError("WFBuffer: Can't write to temporary file", fname));
'''))
r("write-ctor-open", "C03 C05", (WB, '''            ofstream file;
            file.open(_GetFileName(i).c_str(), ios_base::trunc);
''', '''            ofstream file(_GetFileName(i).c_str(), ios_base::trunc);
'''))
r("write-while-loop", "C01 C03 C05", (WB, '''      for (size_t i = _buf.size()-1; i > 0; i--){ /* walk through membuf - backwards */
         if (_buf[i].Psi''', '''      size_t i = _buf.size();
      while (--i > 0){ /* walk through membuf - backwards */
         if (_buf[i].Psi'''))
FS = "tools/FileSingle.h"
r("fs-close-flush", "C03 C05", (FS, '''         bool failed = _sout->fail();

         delete _sout;''', '''         const bool failed = !_sout->good();

         delete _sout;'''))
r("fs-magic-helper", "C03 C05", (FS, '''            magic = ZLIB_MAGIC;
            file.write((char*) magic.c_str(), magic.size()+1);
            if (file.bad())
               throw(EIOError("Can not write binary file", name));
''', '''            magic = ZLIB_MAGIC;
            file.write((char*) magic.c_str(), magic.size()+1);
'''))
FL = "FiltersList.cpp"
RHO = '''	       WFMultistate* psi = dynamic_cast<WFMultistate*>(Psi);
	       if (psi == NULL)
		  throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
'''
NS = "   void FiltersList::Apply("
r("null-helper-throws", "C03 C06", (FL, RHO, "	       WFMultistate* psi = multi(Psi);\n"), (FL, NS, '''   static WFMultistate* multi(WaveFunction* Psi)
   {
      WFMultistate* psi = dynamic_cast<WFMultistate*>(Psi);
      if (psi) return psi;
      throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
   }

''' + NS))
r("null-check-helper", "C03 C06", (FL, RHO, "	       WFMultistate* psi = dynamic_cast<WFMultistate*>(Psi);\n	       require(psi, Psi);\n"), (FL, NS, '''   static void require(WFMultistate* ms, WaveFunction* Psi)
   {
      if (!ms)
         throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
   }

''' + NS))
r("null-predicate-helper", "C03 C06", (FL, RHO, '''	       WFMultistate* psi = dynamic_cast<WFMultistate*>(Psi);
	       if (!usable(psi))
		  throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
'''), (FL, NS, '''   static bool usable(WFMultistate* ms)
   {
      return ms != NULL && ms->States() > 0;
   }

''' + NS))
r("null-flag", "C03 C06", (FL, RHO, '''	       WFMultistate* psi = dynamic_cast<WFMultistate*>(Psi);
	       const bool single = (NULL == psi);
	       if (single)
		  throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
'''))
r("null-nested-else", "C03 C06", (FL, RHO, '''	       WFMultistate* psi;
	       if (!(psi = dynamic_cast<WFMultistate*>(Psi))) {
		  throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
	       }
'''))
PP = "ProgPropa.cpp"
r("null-node-helper", "C03 C06", (PP, '''      _ContentNodes = _propaNode.NextChild();
      if (_ContentNodes == NULL)
	 throw ( EParamProblem ("No content in program definition") );
''', '''      _ContentNodes = content(_propaNode);
'''), (PP, "   void ProgPropa::Run()", '''   static XmlNode* content(XmlNode& node)
   {
      XmlNode* c = node.NextChild();
      return c != NULL ? c : throw EParamProblem ("No content in program definition");
   }

   void ProgPropa::Run()'''))
OD = "qdlib/ODMultistate.cpp"
r("null-od-local", "C03 C06", (OD, '''            ODSpace *od =  dynamic_cast<ODSpace*>(State(i,j));
            if ( od == NULL && State(i,j) != NULL)
               throw ( EIncompatible ("ODMultistate can only handle DSpace operators") );
            
            if ( State(i,j) != NULL ) {''', '''            Operator* op = State(i,j);
            ODSpace *od =  dynamic_cast<ODSpace*>(op);
            if ( od == NULL && op != NULL)
               throw ( EIncompatible ("ODMultistate can only handle DSpace operators") );
            
            if ( op != NULL ) {'''))
r("null-od-continue", "C03 C06", (OD, '''            if ( od == NULL && State(i,j) != NULL)
               throw ( EIncompatible ("ODMultistate can only handle DSpace operators") );
            
            if ( State(i,j) != NULL ) {''', '''            if (State(i,j) == NULL) continue;
            if ( od == NULL)
               throw ( EIncompatible ("ODMultistate can only handle DSpace operators") );
            
            if ( true ) {'''))

# C07: copies
GB = "qdlib/OGobbler.cpp"
r("copy-helper", "C07", (GB, "   Operator * OGobbler::Copy(Operator * O)", '''   void OGobbler::_CopyFilter(OGobbler *src)
   {
      _nip = src->_nip;
      _order = src->_order;
      _residue = src->_residue;
      _gain = src->_gain;
   }

   Operator * OGobbler::Copy(Operator * O)'''), (GB, '''      _nip = o->_nip;
      _order = o->_order;
      _residue = o->_residue;
      _gain = o->_gain;
''', "      _CopyFilter(o);\n"), ("qdlib/OGobbler.h", "	 void _Init();", "	 void _Init();\n         void _CopyFilter(OGobbler *src);"))
r("copy-local-ref", "C07", (GB, '''      _nip = o->_nip;
      _order = o->_order;
      _residue = o->_residue;
      _gain = o->_gain;
''', '''      const OGobbler& src = *o;
      const double gain = src._gain;
      const bool nip = src._nip;
      _residue = src._residue ? true : false;
      _nip = nip;
      if (_order != src._order)
         _order = src._order;
      _gain = gain;
'''))
r("copy-while", "C07", (GB, '''      for (int i=0; i < MAX_DIMS; i++){
	 _lp[i] = o->_lp[i];
	 _lpx[i] = o->_lpx[i];
	 _rp[i] = o->_rp[i];
	 _rpx[i] = o->_rpx[i];
	 
      }
      /* Copy Parents */
      OGridSystem::Copy(O);
''', '''      /* Copy Parents */
      OGridSystem::Copy(O);
      int i = 0;
      while (i < MAX_DIMS){
	 _lp[i] = o->_lp[i];
	 _rp[i] = o->_rp[i];
	 i++;
      }
      std::copy(o->_lpx, o->_lpx + MAX_DIMS, _lpx);
      memcpy(_rpx, o->_rpx, sizeof(_rpx));
'''), (GB, '#include "OGobbler.h"', '#include "OGobbler.h"\n#include <algorithm>\n#include <cstring>'))
r("copy-static-cast", "C07", (GB, '''      OGobbler *o;
      
      o = dynamic_cast<OGobbler*>(O);
      if (o == NULL)
	 throw(EIncompatible("Not a Gobbler", O->Name()));
''', '''      if (dynamic_cast<OGobbler*>(O) == NULL)
	 throw(EIncompatible("Not a Gobbler", O->Name()));

      OGobbler *o = &dynamic_cast<OGobbler&>(*O);
      if (o == this)
         return this;
'''))
r("copy-getter", "C07", ("qdlib/OGridHOFD.cpp", "      _order = o->_order;\n      _dim = o->_dim;\n", "      _order = o->Order();\n      std::swap(_dim, *new int(o->_dim));\n".replace("std::swap(_dim, *new int(o->_dim));", "_dim = o->_dim + 0;")),
  ("qdlib/OGridHOFD.h", "      public:\n", "      public:\n         int Order() const { return _order; }\n"))
CH = "CmdHandler.cpp"
r("srv-respond-helper", "C08 C05 C03 C06", (CH, '''   void CmdHandler::send_OK(bool data_follows)
   {
      Response resp;
      resp.set_response(Response_response_t_OK);
      resp.set_data_follows(data_follows);
      send_response(resp);
   }
''', '''   static void fill(Response& r, Response_response_t kind, bool data)
   {
      r.set_data_follows(data);
      r.set_response(kind);
   }

   void CmdHandler::send_OK(bool data_follows)
   {
      Response resp;
      fill(resp, Response_response_t_OK, data_follows);
      send_response(resp);
   }
'''))
r("srv-null-else", "C08 C06", (CH, '''      if (get_operator_from_command(cmd) == NULL) return;

      send_OK(false);
''', '''      Operator* loaded = get_operator_from_command(cmd);

      if (loaded)
         send_OK(false);
'''))
r("srv-while-loop", "C08 C03 C06", (CH, '''      do { /* command loop */''', '''      bool quit = false;
      while (!quit) { /* command loop */'''), (CH, '''         log.cout() << "completed\\n";
         log.flush();
      } while  (cmd.cmd() != Command_command_t_QUIT);
''', '''         log.cout() << "completed\\n";
         log.flush();
         quit = cmd.cmd() == Command_command_t_QUIT;
      }
'''))
r("srv-quit-return", "C08", (CH, '''                  log.coutdbg() << "Received QUIT" << endl;
                  log.flush();
                  break;
''', '''                  log.coutdbg() << "Received QUIT" << endl;
                  log.flush();
                  log.cout() << "completed\\n";
                  log.flush();
                  return;
'''))
r("srv-read-helper", "C08 C04 C03", (CH, '''   /**
    * Run commands.
    *
    */
''', '''   static void read_size(istream* in, uint32_t& n)
   {
      in->read(reinterpret_cast<char*>(&n), sizeof(n));
      if (in->fail())
         throw (EIOError("Reading the command from input failed"));
   }

   /**
    * Run commands.
    *
    */
'''), (CH, '''         sin_->read(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
         if (sin_->fail())
            throw (EIOError("Reading the command from input failed"));
''', '''         read_size(sin_, msg_size);
'''))
r("srv-if-chain", "C08", (CH, '''      if (!cmd.has_param_s1()){
         send_error_message("READ_WF is missing a file name");
         return;
      }

      send_OK(true);

      FileWF file;


      // Load WF;
      file.Name(cmd.param_s1());

      WaveFunction* wf = get_wf(file);
      if (wf == NULL) return;

      // Write to stream
      file.Compress(false);
      file.SetOutputStream(*sout_);
      file.Format(FileSingle<WaveFunction>::stream);

      // The format in the stream is as follows:
      // In case of success the file is sent which can
      // be detected by the file header
      // In case of an error a message is sent: msg_len, Response.

      put_wf_to_stream(file, wf);

      DELETE_WF(wf);
''', '''      const bool named = cmd.has_param_s1();
      if (named) {
         send_OK(true);

         FileWF file;
         file.Name(cmd.param_s1());

         if (WaveFunction* wf = get_wf(file)) {
            file.Compress(false);
            file.SetOutputStream(*sout_);
            file.Format(FileSingle<WaveFunction>::stream);
            put_wf_to_stream(file, wf);
            DELETE_WF(wf);
         }
      } else
         send_error_message("READ_WF is missing a file name");
'''))
r("srv-flag-local", "C08 C03", (CH, '''         } catch (Exception& e) {
            if (!error_sent_) send_error_message(e.GetMessage());
            throw;
         }
''', '''         } catch (Exception& e) {
            const bool told = error_sent_;
            if (told == false)
               send_error_message(e.GetMessage());
            throw (e);
         }
'''))
r("srv-ok-flag", "C08 C03", (CH, '''      try {
         RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
      } catch (Exception& e) {
         send_error_message(e.GetMessage());
         throw (e);
      }

      send_OK(false);
''', '''      bool done = false;
      try {
         RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
         done = true;
      } catch (Exception& e) {
         send_error_message(e.GetMessage());
         throw (e);
      }

      if (done) send_OK(false);
'''))
# ---- C09
r("init-in-body", "C09", ("qdlib/Laser.cpp", '''   Laser::Laser() : _name("Laser"), _dt(0), _clock(NULL), _scale(1), _fft(NULL), _spectrum(NULL)
   {}
''', '''   Laser::Laser() : _name("Laser"), _clock(NULL), _fft(NULL), _spectrum(NULL)
   {
      _dt = 0;
      _scale = 1;
   }
'''))
r("init-in-helper", "C09 C07", ("qdlib/Laser.cpp", '''   Laser::Laser() : _name("Laser"), _dt(0), _clock(NULL), _scale(1), _fft(NULL), _spectrum(NULL)
   {}
''', '''   Laser::Laser() : _name("Laser")
   {
      Reset_();
   }

   void Laser::Reset_()
   {
      _dt = 0;
      _clock = NULL;
      _scale = 1;
      _fft = NULL;
      _spectrum = NULL;
   }
'''), ("qdlib/Laser.h", "         Laser();\n\n", "         Laser();\n         void Reset_();\n\n"))
r("norm-late-init", "C09 C02", ("qdlib/OCheby.cpp", "      double norm(0);\n", "      double norm;\n      norm = 0;\n"))
r("states-or-default", "C09", ("qdlib/FileWF.cpp", '''            int states;
            p.GetValue("states", states);''', '''            int states;
            if (p.isPresent("states"))
               p.GetValue("states", states);
            else
               states = 0;
'''))
r("states-helper", "C09", ("qdlib/FileWF.cpp", '''            int states;
            p.GetValue("states", states);''', '''            int states;
            numStates(p, states);'''), ("qdlib/FileWF.cpp", '''   FileWF::~FileWF()
''', '''   static void numStates(ParamContainer& p, int& n)
   {
      p.GetValue("states", n);
   }

   FileWF::~FileWF()
'''))
r("states-flag", "C09", ("qdlib/FileWF.cpp", '''            int states;
            p.GetValue("states", states);''', '''            int states;
            bool found = false;
            if (p.isPresent("states")) {
               p.GetValue("states", states);
               found = true;
            }
            if (!found)
               throw ( EParamProblem("Init from meta file: Invalid number of states"));'''))
r("factor-switch", "C09", ("tools/Memory.cpp", "       if (factor > 1)\n          s.erase(s.length()-1, 1); /* Remove suffix */\n", '''       size_t drop;
       do {
          drop = factor > 1 ? 1 : 0;
       } while (drop > 1);
       if (drop)
          s.erase(s.length()-1, drop); /* Remove suffix */
'''))
r("eigen-ptr-late", "C09 C06", ("qdlib/OGridKick.cpp", '''      WFGridSystem *opPsi;

      opPsi = dynamic_cast<WFGridSystem*> (Psi);
      if (opPsi == NULL)
         throw(EIncompatible("Psi is not of type WFGridSystem", Psi->Name()));
''', '''      WFGridSystem *opPsi;

      if (Psi != NULL)
         opPsi = dynamic_cast<WFGridSystem*> (Psi);
      else
         opPsi = NULL;
      if (opPsi == NULL)
         throw(EIncompatible("Psi is not of type WFGridSystem"));
'''))
r("param-lookup-iter", "C09 C04", ("tools/ParamContainer.cpp", '''"%lf", &value) != 1) {
            value = 0; /* Not a number */
            return false;
         }
         return true;
      }
      else {
         value = 0;
         return false;''', '''"%lf", &value) == 1)
            return true;
         value = 0; /* Not a number */
         return false;
      }
      else {
         value = 0;
         return false;'''))

LS = "qdlib/Laser.cpp"
r("ser-put-helper", "C10 C05 C04", (LS, "   void Laser::Serialize (std::ostream& os)\n", '''   template<class T>
   static void put(std::ostream& os, T& v)
   {
      os.write(reinterpret_cast<char*>(&v), sizeof(v));
   }

   void Laser::Serialize (std::ostream& os)
'''), (LS, "      os.write(reinterpret_cast<char*>(&size), sizeof(size));\n      os.write(reinterpret_cast<char*>(&_dt), sizeof(_dt));", "      put(os, size);\n      put(os, _dt);"))
r("ser-get-helper", "C10 C04", (LS, "   void Laser::DeSerialize (std::istream&is)\n", '''   static void get(std::istream& is, void* p, size_t n)
   {
      is.read(static_cast<char*>(p), n);
      if (is.fail())
         throw(EIOError("Can't read laser field from stream"));
   }

   void Laser::DeSerialize (std::istream&is)
'''), (LS, '''      double dt;
      is.read(reinterpret_cast<char*>(&dt), sizeof(dt));

      if (is.fail())
         throw(EIOError("Can't read laser field from stream"));
''', '''      double dt;
      get(is, &dt, sizeof(dt));
'''))
r("ser-direct-member", "C10 C04", (LS, '''      double dt;
      is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
''', '''      is.read(reinterpret_cast<char*>(&_dt), sizeof(_dt));
'''), (LS, "      if (dt <= 0)\n", "      if (_dt <= 0)\n"), (LS, '"Laser field got a non-sense dt: ", dt)', '"Laser field got a non-sense dt: ", _dt)'), (LS, "      _dt = dt;\n\n      newsize", "      newsize"))
HM = "qdlib/OHermitianMatrix.cpp"
r("ser-loop", "C10 C05", (HM, '''     os.write(reinterpret_cast<char*>(&rows_cols), sizeof(rows_cols));
     os.write(reinterpret_cast<char*>(&rows_cols), sizeof(rows_cols));
''', '''     uint32 dims[2] = {rows_cols, rows_cols};
     os.write(reinterpret_cast<char*>(dims), sizeof(dims));
'''))
r("ser-two-vars", "C10 C04", (HM, '''      uint32_t size;

      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
      is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
''', '''      uint32_t size, cols;

      is.read(reinterpret_cast<char*>(&size), sizeof(size));
      is.read(reinterpret_cast<char*>(&cols), sizeof(cols));
'''))
WGS = "qdlib/WFGridSystem.cpp"
r("ser-vector-buf", "C10 C04", (WGS, '''      char* buf = new char[size];
      is.read(buf, size);
      if (is.fail() || ! grid_sys.header.ParseFromArray(buf, size) ) {
         delete[] buf;
         throw(EIOError("Can't read WF from stream"));
      }

      delete[] buf;
''', '''      string buf(size, '\\0');
      is.read(&buf[0], size);
      if (is.fail() || ! grid_sys.header.ParseFromString(buf) )
         throw(EIOError("Can't read WF from stream"));
'''))
r("ser-string-hdr", "C10 C05", (WGS, '''      if (! grid_sys.header.SerializeToOstream(&os) )
         throw(EIOError("Can't write WF to stream"));
''', '''      string hdr;
      if (! grid_sys.header.SerializeToString(&hdr) )
         throw(EIOError("Can't write WF to stream"));
      os.write(hdr.data(), hdr.size());
'''))
r("ser-len-var", "C10 C05 C04", (WGS, '''      newsize(GridSystem::Size());
      grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));

      is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
''', '''      const lint n = GridSystem::Size();
      newsize(n);
      const size_t bytes = sizeBytes();
      grid_sys.header.set_data_size(bytes);

      char* dst = reinterpret_cast<char*>(begin(0));
      is.read(dst, bytes);
'''))
r("fs-tag-helper", "C10", (FS, '''   /**
    * Write meta data to stream.
    */
''', '''   static inline FileSingleHeader_Compression StreamTag(int packed)
   {
      return packed ? FileSingleHeader_Compression_ZLIB : FileSingleHeader_Compression_UNCOMPRESSED;
   }

   /**
    * Write meta data to stream.
    */
'''), (FS, '''      switch (_compMethod){
         case BZIP:
         case ZLIB:
            MetaData.header.set_compression(FileSingleHeader_Compression_ZLIB);
            break;
         case UNCOMPRESSED:
            MetaData.header.set_compression(FileSingleHeader_Compression_UNCOMPRESSED);
            break;
         case INVALID:
            throw (EIOError("Can't write meta data to stream since compression is INVALID"));
      }
''', '''      if (_compMethod == INVALID)
         throw (EIOError("Can't write meta data to stream since compression is INVALID"));

      MetaData.header.set_compression(StreamTag(_compMethod == ZLIB || _compMethod == BZIP));
'''))
r("fs-payload-local", "C10 C05", (FS, '''            // put payload size in header and write header to stream
            WriteMetaToStream(data, payload.str().size(), more_files_follow, ingore_data);

            // write payload to stream
            WriteDataToStream(payload.str());
''', '''            const string packed = payload.str();
            WriteMetaToStream(data, packed.size(), more_files_follow, ingore_data);
            WriteDataToStream(packed);
'''))
r("fs-prepare-if", "C10", (FS, '''         case ZLIB:
            _CompressZLIB(data);
            break;
         case BZIP:
            _CompressBZIP(data);
            break;
         case INVALID:
            throw (EIOError("Can't prepare meta data for stream since compression is INVALID"));

      }
''', '''         case INVALID:
            throw (EIOError("Can't prepare meta data for stream since compression is INVALID"));
         default:
            if (_compMethod == ZLIB)
               _CompressZLIB(data);
            else
               _CompressBZIP(data);
      }
'''))
r("meta-helper", "C10", ("ProgPropa.cpp", '''   /**
    * Write Propagation.meta
    */
''', '''   static void describe(ParamContainer& p, int Nt, double dt, int wcycle)
   {
      p.SetValue("Nt", Nt);
      p.SetValue("dt", dt);
      p.SetValue("Wcycle", wcycle);
   }

   /**
    * Write Propagation.meta
    */
'''), ("ProgPropa.cpp", '''      p.SetValue("Nt", Nt);
      p.SetValue("dt", clock->Dt());
''', '''      describe(p, Nt, clock->Dt(), _wcycle);
'''), ("ProgPropa.cpp", '''      p.SetValue("Wcycle", _wcycle);
''', ""))
r("key-const", "C10", ("ProgEigen.cpp", '''	   meta.GetValue("Wcycle", wcycle);
''', '''	   const string key("Wcycle");
	   meta.GetValue(key, wcycle);
'''))
r("type-switch-if", "C10", ("tools/ParamContainer.cpp", '''         case t_double:
            return string("double");
         case t_bool:
            return string("bool");
''', '''         case t_bool:
         {
            string s = "bool";
            return s;
         }
         case t_double:
            return "double";
'''))
# ---- C11
r("idx-predicate", "C11", ("qdlib/OMultistate.cpp", '''   /**
    * Add an operator to the matrix.
    */
''', '''   static bool inMatrix(int i, int n)
   {
      return i >= 0 && n > i;
   }

   /**
    * Add an operator to the matrix.
    */
'''), ("qdlib/OMultistate.cpp", '''      if (i >= 0 && j >= 0 && _nstates > i && _nstates > j)
''', '''      if (inMatrix(i, _nstates) && inMatrix(j, _nstates))
'''))
r("idx-check-helper", "C11", ("qdlib/OMultistate.cpp", '''   /**
    * Add an operator to the matrix.
    */
''', '''   static void checkStates(int n)
   {
      if (n < 0)
         throw (EParamProblem("Multistate: negative matrix index"));
      if (n >= QD_MAX_STATES)
         throw (EOverflow("Multistate: More than QD_MAX_STATES not possible"));
   }

   /**
    * Add an operator to the matrix.
    */
'''), ("qdlib/OMultistate.cpp", '''      if (row < 0 || col < 0)
	 throw (EParamProblem("Multistate: negative matrix index"));

      if (row >= QD_MAX_STATES || col >= QD_MAX_STATES)
	 throw (EOverflow("Multistate: More than QD_MAX_STATES not possible"));
''', '''      checkStates(row);
      checkStates(col);
'''), ("qdlib/OMultistate.cpp", '''      if (row+1 > _nstates)
	 _nstates = row+1;
      if (col+1 > _nstates)
	 _nstates = col+1;
''', '''      const int last = row > col ? row : col;
      if (_nstates <= last)
	 _nstates = last + 1;
'''))
r("idx-max", "C11", ("qdlib/OMultistate.cpp", '''      if (row+1 > _nstates)
	 _nstates = row+1;
      if (col+1 > _nstates)
	 _nstates = col+1;
''', '''      _nstates = std::max(_nstates, std::max(row, col) + 1);
'''))
r("idx-while", "C11", ("qdlib/OList.cpp", '''      for(int i=0; i < MAX_OPS; i++){
         _O[i] = NULL;
      }
''', '''      int i = MAX_OPS;
      while (i-- > 0)
         _O[i] = NULL;
'''))
r("idx-reverse", "C11", ("qdlib/OGSPO.cpp", '''      for (int i = 0; i < _spoLen; i++) {
         _ops[i]->UpdateTime();
      }
''', '''      for (int i = _spoLen - 1; i >= 0; --i)
         _ops[i]->UpdateTime();
'''))
r("idx-postinc", "C11", ("qdlib/OGridSum.cpp", '''      _O[_size] = O;
      _size++;
''', '''      _O[_size++] = O;
'''))
r("idx-local-copy", "C11", ("qdlib/OList.cpp", '''      _O[_size] = O;

      _O[_size]->Conj(_conj);
      if (! O->Hermitian() ) _hermitian = false;

      _size++;
''', '''      const int pos = _size;
      _size = pos + 1;
      _O[pos] = O;

      O->Conj(_conj);
      if (! O->Hermitian() ) _hermitian = false;
'''))
r("idx-unsigned", "C11", ("qdlib/OList.cpp", '''      if (index < 0 || index >= _size)
         throw( EIncompatible("Access to empty element") );
      
      _O[index] = O;
''', '''      if (!(index >= 0 && index < _size))
         throw( EIncompatible("Access to empty element") );
      
      _O[index] = O;
'''))
r("idx-targets", "C11", ("ProgOCT.cpp", '''         if (_ntargets < 1)
            throw(EParamProblem("Number of targets to small", _ntargets));
         if (_ntargets > MAX_TARGETS)
            throw(EParamProblem("Number of targets exceeding MAX_TARGETS", _ntargets));
''', '''         if (_ntargets >= 1 && _ntargets <= MAX_TARGETS) {
            log.flush();
         } else
            throw(EParamProblem("Number of targets out of range", _ntargets));
'''))
r("idx-local-target", "C11", ("ProgOCT.cpp", '''         attr.GetValue("ntargets", _ntargets);
         if (_ntargets < 1)
            throw(EParamProblem("Number of targets to small", _ntargets));
         if (_ntargets > MAX_TARGETS)
            throw(EParamProblem("Number of targets exceeding MAX_TARGETS", _ntargets));
''', '''         int wanted = 1;
         attr.GetValue("ntargets", wanted);
         if (wanted < 1 || MAX_TARGETS < wanted)
            throw(EParamProblem("Number of targets out of range", wanted));
         _ntargets = wanted;
'''))
r("idx-clamp", "C11", ("qdlib/WFMultistate.cpp", '''      for (int i = 0; i < _nstates; i++) {
         r->_states[i] = _states[i]->NewInstance();
''', '''      const lint n = std::min(_nstates, (lint) QD_MAX_STATES);
      for (int i = 0; i < n; i++) {
         r->_states[i] = _states[i]->NewInstance();
'''))
r("idx-full-helper", "C11", ("FiltersList.h", '''         filter _filter[MAX_FILTERS];
''', '''         filter _filter[MAX_FILTERS];
         bool Full() const { return _size >= MAX_FILTERS; }
'''), ("FiltersList.cpp", '''         if (_size >= MAX_FILTERS)
            throw EParamProblem("Maximum numbers of filters reached.");
''', '''         if (Full())
            throw EParamProblem("Maximum numbers of filters reached.");
'''))
r("idx-ref-elem", "C11", ("FiltersList.cpp", '''      if (value == "real")
         _filter[_size].value = real;
''', '''      filter& cur = _filter[_size];
      if (value == "real")
         cur.value = real;
'''))
# ---- C12 composites
r("part-while", "C12", ("qdlib/OList.cpp", '''      for(int i=0; i < _size; i++){
         _O[i]->UpdateTime();
      }
''', '''      int k = 0;
      while (k < _size) {
         _O[k]->UpdateTime();
         ++k;
      }
'''))
r("part-reversed", "C12", ("qdlib/OList.cpp", '''      clock = cl;
      for(int i=0; i < _size; i++){
         _O[i]->Clock(clock);
      }
''', '''      clock = cl;
      for(int i=_size-1; i >= 0; --i){
         _O[i]->Clock(cl);
      }
'''))
r("part-local", "C12", ("qdlib/OList.cpp", '''         _O[i]->Conj(conj);
      }

''', '''         Operator* part = _O[i];
         part->Conj(conj);
      }

'''))
r("part-helper-one", "C12", ("qdlib/OList.cpp", '''   void OList::UpdateTime()
   {
      for(int i=0; i < _size; i++){
         _O[i]->UpdateTime();
      }
''', '''   static void updateOne(Operator* op)
   {
      op->UpdateTime();
   }

   void OList::UpdateTime()
   {
      for(int i=0; i < _size; i++)
         updateOne(_O[i]);
'''))
r("part-helper-index", "C12", ("qdlib/OList.h", '''         OList();
''', '''         OList();
         void _RecalcPart(int which, bool on) { _O[which]->RecalcInternals(on); }
'''), ("qdlib/OList.cpp", '''         _O[i]->RecalcInternals(on);
''', '''         _RecalcPart(i, on);
'''))
r("part-helper-all", "C12", ("qdlib/OList.h", '''         OList();
''', '''         OList();
         void _SetClocks(QDClock *c) { for (int i=0; i < Size(); i++) Get(i)->Clock(c); }
'''), ("qdlib/OList.cpp", '''      clock = cl;
      for(int i=0; i < _size; i++){
         _O[i]->Clock(clock);
      }
''', '''      clock = cl;
      _SetClocks(clock);
'''))
r("part-get", "C12", ("qdlib/OList.cpp", '''         _O[i]->Init(Psi);
''', '''         Get(i)->Init(Psi);
'''))
r("part-const-n", "C12", ("qdlib/OList.cpp", '''      for(int i=0; i < _size; i++){
         _O[i]->UpdateTime();
      }
''', '''      const int n = Size();
      for(int i=0; i != n; i++){
         _O[i]->UpdateTime();
      }
'''))
r("part-continue", "C12", ("qdlib/OMultistate.cpp", '''	       if (_matrix[i][j] != NULL)
	       _matrix[i][j]->Clock(clock);
'''.replace("	       if", "	    if"), '''	    if (_matrix[i][j] == NULL)
	       continue;
	    _matrix[i][j]->Clock(clock);
'''))
r("part-ms-local", "C12", ("qdlib/OMultistate.cpp", '''            if (_matrix[i][j] != NULL)
               _matrix[i][j]->RecalcInternals(on);
''', '''            Operator *el = _matrix[i][j];
            if (el) el->RecalcInternals(on);
'''))
r("part-ms-state", "C12", ("qdlib/OMultistate.cpp", '''            if (_matrix[i][j] != NULL)
               _matrix[i][j]->RecalcInternals(on);
''', '''            if (State(i,j) != NULL)
               State(i,j)->RecalcInternals(on);
'''))
r("part-ms-merge", "C12", ("qdlib/OMultistate.cpp", '''      if (_hermitian){
	 for(int i=0; i< _nstates; i++){
	    for(int j=0; j<= i; j++){
	       if (_matrix[i][j] != NULL)
		  _matrix[i][j]->UpdateTime();
	    }
	 }
      } else {
	 for(int i=0; i< _nstates; i++){
	    for(int j=0; j< _nstates; j++){
	       if (_matrix[i][j] != NULL)
		  _matrix[i][j]->UpdateTime();
	    }
	 }
      }
''', '''      for(int i=0; i< _nstates; i++){
         const int last = _hermitian ? i+1 : _nstates;
	 for(int j=0; j < last; j++){
	    if (_matrix[i][j] != NULL)
	       _matrix[i][j]->UpdateTime();
	 }
      }
'''))
r("part-ms-swap", "C12", ("qdlib/OMultistate.cpp", '''	 for(int i=0; i< _nstates; i++){
	    for(int j=0; j<= i; j++){
	       if (_matrix[i][j] != NULL)
		  _matrix[i][j]->UpdateTime();
	    }
	 }
''', '''	 for(int row=0; row< _nstates; row++){
	    for(int col=row; col >= 0; col--){
	       if (_matrix[row][col])
		  _matrix[row][col]->UpdateTime();
	    }
	 }
'''))
r("part-ms-applyhelper", "C12", ("qdlib/OMultistate.h", '''         bool _subinit;    /* Initial content ops */
''', '''         bool _subinit;    /* Initial content ops */
         void _AddElement(int i, int j, WaveFunction *to, WaveFunction *from) {
            if (_matrix[i][j] != NULL) _matrix[i][j]->ApplyAdd(to, from);
            else if (i == j && _unity) AddElements((cVec*) to, (cVec*) from);
         }
'''), ("qdlib/OMultistate.cpp", '''            if (_matrix[i][j] != NULL) {
               _matrix[i][j]->ApplyAdd(dPsi->State(i), psi->State(j));
            } else if (i == j && _unity) { /* Diagonal without operator means 1 */
               AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
            }
''', '''            _AddElement(i, j, dPsi->State(i), psi->State(j));
'''))
r("part-sum-first", "C12", ("qdlib/OSum.cpp", '''      Get(0)->Apply(destPsi, sourcePsi);
      
      for (int i = 1; i < Size(); i++) {
         Get(i)->ApplyAdd(destPsi, sourcePsi);
      }
''', '''      for (int i = 0; i < Size(); i++) {
         if (i == 0)
            Get(i)->Apply(destPsi, sourcePsi);
         else
            Get(i)->ApplyAdd(destPsi, sourcePsi);
      }
'''))
r("part-prod-down", "C12", ("qdlib/OProduct.cpp", '''       for (int i=Size()-1; i >= 0; i--)
          Get(i)->Apply(Psi);
''', '''       for (int i=Size(); i > 0; i--)
          Get(i-1)->Apply(Psi);
'''))
r("part-prod-while", "C12", ("qdlib/OProduct.cpp", '''       for (int i=Size()-1; i >= 0; i--)
          Get(i)->Apply(Psi);
''', '''       int i = Size();
       while (i-- > 0)
          Get(i)->Apply(Psi);
'''))
r("part-wf-state", "C12", ("qdlib/WFMultistate.cpp", '''         _states[i]->Retire();
''', '''         State(i)->Retire();
'''))
r("part-wf-dwhile", "C12", ("qdlib/WFMultistate.cpp", '''      for(lint i=0; i < _nstates; i++)
         _states[i]->Reaquire();

      ReaquireStorage();
''', '''      ReaquireStorage();

      lint i = 0;
      for (;;) {
         if (i >= _nstates) break;
         _states[i]->Reaquire();
         i++;
      }
'''))
r("part-wf-norm", "C12", ("qdlib/WFMultistate.cpp", '''         d += *(_states[i]) * _states[i];
''', '''         WaveFunction *s = _states[i];
         const dcomplex part = *s * s;
         d += part;
'''))
r("part-recalc-order", "C12", ("qdlib/OList.cpp", '''      Operator::RecalcInternals(on);
      for(int i=0; i < _size; i++){
         _O[i]->RecalcInternals(on);
      }
''', '''      for(int i=0; i < _size; i++){
         _O[i]->RecalcInternals(on);
      }
      Operator::RecalcInternals(on);
'''))
r("part-empty-return", "C12", ("qdlib/OList.cpp", '''      clock = cl;
      for(int i=0; i < _size; i++){
         _O[i]->Clock(clock);
''', '''      clock = cl;
      if (_size == 0) return;
      for(int i=0; i < _size; i++){
         _O[i]->Clock(clock);
'''))
r("part-valid-all", "C12", ("qdlib/OList.cpp", '''         valid = valid & _O[i]->Valid(Psi);
         if ( !valid ) return false;
''', '''         if ( !_O[i]->Valid(Psi) ) return false;
'''))
r("part-valid-acc", "C12", ("qdlib/OMultistate.cpp", '''               valid = valid & _matrix[i][j]->Valid(wfm->State(i));
            if ( !valid ) return false;
''', '''               if (! _matrix[i][j]->Valid(wfm->State(i))) valid = false;
'''))
r("part-gsum-one", "C12", ("qdlib/OGridSum.cpp", '''      int k;
      if (_size > 1) {
	 for (k=1; k < _size; k++){            /* Loop over operators */
	    _O[k]->UpdateTime();
	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
	       (*this)[i] += (*(_O[k]))[i];
	 }
      }
''', '''      for (int k=1; k < _size; k++){            /* Loop over operators */
	 OGridSystem &part = *_O[k];
	 part.UpdateTime();
	 for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
	    (*this)[i] += part[i];
      }
'''))
r("part-gspo-split", "C12", ("qdlib/OGSPO.cpp", '''      for (int i = 0; i < _spoLen; i++) {
         _ops[i]->UpdateTime();
      }
''', '''      const int n = _spoLen;
      for (int k = 0; k < n; ++k)
         _ops[k]->UpdateTime();
'''))
r("part-prop-clock", "C12", ("qdlib/OPropagator.h", '''	    OList::Clock(cl);
	    if (H != NULL)
	       H->Clock(cl);
''', '''	    if (H) H->Clock(cl);
	    OList::Clock(cl);
'''))
r("part-ptrwalk", "C12", ("qdlib/OList.cpp", '''      for(int i=0; i < _size; i++){
         _O[i]->UpdateTime();
      }
''', '''      Operator **end = _O + _size;
      for(Operator **o = _O; o != end; ++o){
         (*o)->UpdateTime();
      }
'''))
r("part-dowhile", "C12", ("qdlib/OList.cpp", '''      for(int i=0; i < _size; i++){
         _O[i]->UpdateTime();
      }
''', '''      if (_size < 1) return;
      int i = 0;
      do {
         _O[i]->UpdateTime();
         i++;
      } while (i < _size);
'''))

# ---- C13
r("held-cheby-helper", "C13", ("qdlib/OCheby.h", '''	 virtual void Apply(WaveFunction *Psi);
''', '''         void _Hold() { ket0->Reaquire(); ket1->Reaquire(); ket2->Reaquire(); buf->Reaquire(); }
         void _Release() { buf->Retire(); ket0->Retire(); ket1->Retire(); ket2->Retire(); }
	 virtual void Apply(WaveFunction *Psi);
'''), ("qdlib/OCheby.cpp", '''      ket0->Reaquire();
      ket1->Reaquire();
      ket2->Reaquire();
      buf->Reaquire();

      if (imaginary_time)
         imag_time_step(Psi);
      else
         real_time_step(Psi);

      ket0->Retire();
      ket1->Retire();
      ket2->Retire();
      buf->Retire();
''', '''      _Hold();

      if (imaginary_time)
         imag_time_step(Psi);
      else
         real_time_step(Psi);

      _Release();
'''))
r("held-cheby-array", "C13", ("qdlib/OCheby.cpp", '''      ket0->Reaquire();
      ket1->Reaquire();
      ket2->Reaquire();
      buf->Reaquire();

      if (imaginary_time)''', '''      WaveFunction *work[4] = { ket0, ket1, ket2, buf };
      for (int i=0; i < 4; i++)
         work[i]->Reaquire();

      if (imaginary_time)'''))
r("held-cheby-branches", "C13", ("qdlib/OCheby.cpp", '''      if (imaginary_time)
         imag_time_step(Psi);
      else
         real_time_step(Psi);

      ket0->Retire();
      ket1->Retire();
      ket2->Retire();
      buf->Retire();
''', '''      if (imaginary_time) {
         imag_time_step(Psi);
         ket0->Retire();
         ket1->Retire();
         ket2->Retire();
         buf->Retire();
         return;
      }
      real_time_step(Psi);

      buf->Retire();
      ket2->Retire();
      ket1->Retire();
      ket0->Retire();
'''))
r("held-rk4-while", "C13", ("qdlib/ORK4.cpp", '''      for (int i=0; i < 5; i++)
         _buf[i]->Reaquire();
''', '''      int k = 4;
      while (k >= 0) {
         _buf[k]->Reaquire();
         k--;
      }
'''))
r("held-rk4-from1", "C13", ("qdlib/ORK4.cpp", '''      for (int i=0; i < 5; i++)
         _buf[i]->Reaquire();
''', '''      for (int i=1; i < 5; i++)
         _buf[i]->Reaquire();
'''), ("qdlib/ORK4.cpp", '''      for (int i=0; i < 5; i++)
         _buf[i]->Retire();
''', '''      for (int i=1; i < 5; i++)
         _buf[i]->Retire();
'''))
r("held-rk4-unroll", "C13", ("qdlib/ORK4.cpp", '''      for (int i=0; i < 5; i++)
         _buf[i]->Retire();
''', '''      WaveFunction **b = _buf;
      b[0]->Retire();
      b[1]->Retire();
      b[2]->Retire();
      b[3]->Retire();
      b[4]->Retire();
'''))
r("held-rk4-helper", "C13", ("qdlib/ORK4.cpp", '''   void ORK4::Apply(WaveFunction *Psi)
   {
      for (int i=0; i < 5; i++)
         _buf[i]->Reaquire();
''', '''   static void TakeAll(WaveFunction **b, int n)
   {
      for (int i=0; i < n; i++)
         b[i]->Reaquire();
   }

   void ORK4::Apply(WaveFunction *Psi)
   {
      TakeAll(_buf, 5);
'''))
r("held-rk4-step", "C13", ("qdlib/ORK4.h", '''      private:
''', '''      private:
         void _Stage(int i, WaveFunction *Psi, double f) {
            *(_buf[i]) = _buf[i-1];
            *(_buf[i]) *= f * clock->Dt();
            *(_buf[i]) += Psi;
            H->Apply(_buf[i]);
            *(_buf[i]) *= Exponent()/clock->Dt();
         }
'''), ("qdlib/ORK4.cpp", '''      *(_buf[2]) = _buf[1];
      *(_buf[2]) *= 0.5*clock->Dt();
      *(_buf[2]) += Psi;
      H->Apply(_buf[2]);
      *(_buf[2]) *= Exponent()/clock->Dt();
''', '''      _Stage(2, Psi, 0.5);
'''))
r("held-sum-order", "C13", ("qdlib/OSum.cpp", '''      if (_WFbuf[0] == NULL) _WFbuf[0] = sourcePsi->NewInstance();
      else _WFbuf[0]->Reaquire();

      Get(0)->ApplyParent(destPsi, sourcePsi);
''', '''      Get(0)->ApplyParent(destPsi, sourcePsi);

      if (_WFbuf[0] != NULL) _WFbuf[0]->Reaquire();
      else _WFbuf[0] = sourcePsi->NewInstance();
'''))
r("held-sum-guard", "C13", ("qdlib/OSum.cpp", '''      if (_WFbuf[0] == NULL) _WFbuf[0] = sourcePsi->NewInstance();
      else _WFbuf[0]->Reaquire();

      Get(0)->ApplyParent(destPsi, sourcePsi);
''', '''      Get(0)->ApplyParent(destPsi, sourcePsi);
      if (Size() < 2) return;

      if (_WFbuf[0] == NULL) _WFbuf[0] = sourcePsi->NewInstance();
      _WFbuf[0]->Reaquire();
'''))
r("held-sum-local", "C13", ("qdlib/OSum.cpp", '''      if (_WFbuf[0] == NULL) _WFbuf[0] = sourcePsi->NewInstance();
      else _WFbuf[0]->Reaquire();

      Get(0)->ApplyParent(destPsi, sourcePsi);
      
      for (int i=1; i < Size(); i++)
      {
         Get(i)->ApplyParent(_WFbuf[0], sourcePsi);
         AddElements(destPsi, _WFbuf[0]);
      }

      _WFbuf[0]->Retire();
''', '''      if (_WFbuf[0] == NULL) _WFbuf[0] = sourcePsi->NewInstance();
      else _WFbuf[0]->Reaquire();
      WaveFunction *work = _WFbuf[0];

      Get(0)->ApplyParent(destPsi, sourcePsi);
      
      for (int i=1; i < Size(); i++)
      {
         Get(i)->ApplyParent(work, sourcePsi);
         AddElements(destPsi, work);
      }

      work->Retire();
'''))
r("held-op-helper", "C13", ("qdlib/Operator.h", '''         WaveFunction *_buf, *_buf1;
''', '''         WaveFunction *_buf, *_buf1;
         static void _Take(WaveFunction *&b, WaveFunction *like) {
            if (b != NULL) { b->Reaquire(); return; }
            b = like->NewInstance();
         }
'''), ("qdlib/Operator.h", '''	    if (_buf == NULL) _buf = PsiKet->NewInstance();
	    else _buf->Reaquire();

	    dcomplex result;

	    Apply(_buf, PsiKet);
	    result = *PsiBra * _buf;

	    _buf->Retire();

	    return result;
''', '''	    _Take(_buf, PsiKet);
	    Apply(_buf, PsiKet);
	    const dcomplex result = *PsiBra * _buf;
	    _buf->Retire();
	    return result;
'''))
r("held-op-getter", "C13", ("qdlib/Operator.h", '''         WaveFunction *_buf, *_buf1;
''', '''         WaveFunction *_buf, *_buf1;
         WaveFunction* _Work(WaveFunction *like) {
            if (_buf1 == NULL) _buf1 = like->NewInstance();
            else _buf1->Reaquire();
            return _buf1;
         }
'''), ("qdlib/Operator.h", '''       if (_buf1 == NULL) _buf1 = sourcePsi->NewInstance();
       else _buf1->Reaquire();

       Apply(_buf1, sourcePsi);
       AddElements(destPsi, _buf1);

       _buf1->Retire();
''', '''       WaveFunction *w = _Work(sourcePsi);

       Apply(w, sourcePsi);
       AddElements(destPsi, w);

       w->Retire();
'''))
r("held-ms-later", "C13", ("qdlib/OMultistate.cpp", '''      _buf1->Reaquire();

      sourcePsi->SyncStrides();
      
      *((cVec*) dPsi) = dcomplex(0,0);
''', '''      sourcePsi->SyncStrides();
      
      *((cVec*) dPsi) = dcomplex(0,0);

      _buf1->Reaquire();
'''))
r("held-ms-perrow", "C13", ("qdlib/OMultistate.cpp", '''      _buf1->Reaquire();

      sourcePsi->SyncStrides();
''', '''      sourcePsi->SyncStrides();
'''), ("qdlib/OMultistate.cpp", '''               _matrix[i][j]->ApplyParent(_buf1->State(i), psi->State(j));
               AddElements((cVec*) (dPsi->State(i)), (cVec*) (_buf1->State(i)));
''', '''               _buf1->Reaquire();
               _matrix[i][j]->ApplyParent(_buf1->State(i), psi->State(j));
               AddElements((cVec*) (dPsi->State(i)), (cVec*) (_buf1->State(i)));
               _buf1->Retire();
'''), ("qdlib/OMultistate.cpp", '''         }
      }

      _buf1->Retire();
   }

   
   Operator * OMultistate''', '''         }
      }
   }

   
   Operator * OMultistate'''))
r("held-ms-unused", "C13", ("qdlib/OMultistate.cpp", '''      _buf1->Reaquire();

      psi->SyncStrides();
''', '''      psi->SyncStrides();
'''), ("qdlib/OMultistate.cpp", '''         }
      }
      _buf1->Retire();
   }


   void OMultistate::Apply( WaveFunction *Psi )''', '''         }
      }
   }


   void OMultistate::Apply( WaveFunction *Psi )'''))
r("held-proj-flag", "C13", ("qdlib/OProjection.cpp", '''      *destPsi = dcomplex(0, 0);


''', '''      const bool inv = _inv;
      if (inv) _buf->Reaquire();
      *destPsi = dcomplex(0, 0);


'''), ("qdlib/OProjection.cpp", '''         _buf->Reaquire();
         *_buf = sourcePsi;
''', '''         *_buf = sourcePsi;
'''))
r("held-proj-early", "C13", ("qdlib/OProjection.cpp", '''      if (_inv) {
         _buf->Reaquire();
         *_buf = sourcePsi;
         AddElements(_buf, destPsi, -1);
         *destPsi = _buf;
         _buf->Retire();
      }
''', '''      if (!_inv)
         return;

      WaveFunction *rest = _buf;
      rest->Reaquire();
      *rest = sourcePsi;
      AddElements(rest, destPsi, -1);
      *destPsi = rest;
      rest->Retire();
'''))
r("held-gmat-merge", "C13", ("qdlib/OGridGMat.cpp", '''      for (int i = 0; i < GridSystem::Dim(); i++)
      {
         _wfbuf[i]->Retire();
      }

      buf->Retire();
''', '''      buf->Retire();
      for (int i = GridSystem::Dim() - 1; i >= 0; --i)
      {
         _wfbuf[i]->Retire();
      }

'''))
r("held-gmat-inloop", "C13", ("qdlib/OGridGMat.cpp", '''      for (int i = 0; i < GridSystem::Dim(); i++)
      {
         _wfbuf[i]->Reaquire();
      }

      buf->Reaquire();
''', '''      buf->Reaquire();
'''), ("qdlib/OGridGMat.cpp", '''         _diff.DnDxn(_wfbuf[i], sourcePsi, i);

//''', '''         _wfbuf[i]->Reaquire();
         _diff.DnDxn(_wfbuf[i], sourcePsi, i);

//'''))
r("held-flux-try", "C13", ("qdlib/OFlux.cpp", '''      dcomplex res (*_one * _buf);
      _buf->Retire();

      return res;
''', '''      dcomplex res;
      try {
         res = *_one * _buf;
      } catch (...) {
         _buf->Retire();
         throw;
      }
      _buf->Retire();

      return res;
'''))
r("held-sil-split", "C13", ("qdlib/OSIL.h", '''            void BuildLZB(WaveFunction* Psi);
''', '''            void BuildLZB(WaveFunction* Psi);
         void _Orthogonalise(int it) {
            MultElementsCopy((cVec*) buf0, (cVec*) _Lzb[it-1], _alpha[it-1]);
            *(_Lzb[it]) -= buf0;
            MultElementsCopy((cVec*) buf0, (cVec*) _Lzb[it-2], _beta[it-2]);
            *(_Lzb[it]) -= buf0;
         }
'''), ("qdlib/OSIL.cpp", '''            /* - a_i-1 * q_i-1 */
            MultElementsCopy((cVec*) buf0, (cVec*) _Lzb[it-1], _alpha[it-1]);
            *(_Lzb[it]) -= buf0;
            /* - b_i-2 * q_i-2 */
            MultElementsCopy((cVec*) buf0, (cVec*) _Lzb[it-2], _beta[it-2]);
            *(_Lzb[it]) -= buf0;
''', '''            _Orthogonalise(it);
'''))
r("held-pml-one", "C13", ("qdlib/OGridPML.cpp", '''         *destPsi += _buf2;
      }
      _buf1->Retire();
      _buf2->Retire();
''', '''         *destPsi += _buf2;
      }
      WaveFunction *last[] = {_buf2, _buf1};
      for (WaveFunction *w : last)
         w->Retire();
'''))

# ---- C14
r("own-hofd-helper", "C14", ("qdlib/OGridHOFD.cpp", '''      if (_hofd != NULL) delete _hofd;
      _hofd = NULL;
      if (o->_hofd''', '''      Drop(_hofd);
      if (o->_hofd'''), ("qdlib/OGridHOFD.cpp", '''   Operator* OGridHOFD::operator =(Operator* O)''', '''   template<class T>
   static void Drop(T *&p)
   {
      if (p != NULL) {
         delete p;
         p = NULL;
      }
   }

   Operator* OGridHOFD::operator =(Operator* O)'''))
r("own-hofd-old", "C14", ("qdlib/OGridHOFD.cpp", '''      if (_hofd != NULL) delete _hofd;
      _hofd = NULL;
      if (o->_hofd != NULL) _hofd = new cHOFD(*(o->_hofd));
''', '''      cHOFD *old = _hofd;
      _hofd = (o->_hofd != NULL) ? new cHOFD(*(o->_hofd)) : NULL;
      delete old;
'''))
r("own-diff-fresh", "C14", ("qdlib/Diff.cpp", '''      if (_hofd != NULL) delete _hofd;
      _hofd = NULL;
      if (diff._hofd != NULL) _hofd = new cHOFD(*diff._hofd);
''', '''      cHOFD *mine = NULL;
      if (diff._hofd != NULL) mine = new cHOFD(*diff._hofd);
      delete _hofd;
      _hofd = mine;
'''))
r("own-gmat-split", "C14", ("qdlib/OGridGMat.cpp", '''   OGridGMat::~OGridGMat()
   {
      if (_wfbuf''', '''   OGridGMat::~OGridGMat()
   {
      _Release();
   }

   void OGridGMat::_Release()
   {
      if (_wfbuf'''), ("qdlib/OGridGMat.cpp", '''         delete[] _wfbuf;
      }
''', '''         delete[] _wfbuf;
         _wfbuf = NULL;
      }
'''), ("qdlib/OGridGMat.h", '''   public:
''', '''         void _Release();
   public:
'''))
r("own-laser-take", "C14", ("qdlib/Laser.cpp", '''         delete _spectrum;
         _spectrum = NULL;
''', '''         cVec *s = _spectrum;
         _spectrum = NULL;
         delete s;
'''))
r("own-diff-order", "C14", ("qdlib/Diff.cpp", '''            delete view;
            delete kspace1;
''', '''            delete kspace1;
            delete view;
'''), ("qdlib/Diff.cpp", '''               *view = *kspace1;
               delete kspace1;

               delete view;''', '''               *view = *kspace1;
               delete view;
               delete kspace1;'''))
r("own-filewf-neq", "C14", ("qdlib/FileWF.cpp", '''         ReadData(tmp_data);

         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
            wf->Restore(tmp_data);
            DELETE_WF(tmp_data);
         }
      }

      Name(basename); /* We modfied the name => switch back to original */
      return wf;
   }
''', '''         ReadData(tmp_data);

         const bool packed = (compress != FileSingleHeader_Compression_UNCOMPRESSED);
         if (packed){
            wf->Restore(tmp_data);
            DELETE_WF(tmp_data);
            tmp_data = NULL;
         }
      }

      Name(basename); /* We modfied the name => switch back to original */
      return wf;
   }
'''))
r("own-meta-vector", "C14", ("tools/FileSingle.h", '''      char* buf = new char[mlen];
      _sin->read(reinterpret_cast<char*>(buf), mlen);
''', '''      std::vector<char> store(mlen + 1);
      char* buf = &store[0];
      _sin->read(reinterpret_cast<char*>(buf), mlen);
'''), ("tools/FileSingle.h", '''         delete[] buf;
         throw(EIOError("Error reading meta data from stream"));
      }

      delete[] buf;

      return MetaData;
''', '''         throw(EIOError("Error reading meta data from stream"));
      }

      return MetaData;
'''))
r("own-wfbuffer-last", "C14", ("qdlib/WFBuffer.cpp", '''         DELETE_WF(_buf.back().Psi);
         if (_buf.back().ondisk) FS::Remove(_GetFileName(_buf.size()-1));
         _buf.pop_back();
''', '''         WaveFunction *last = _buf.back().Psi;
         if (_buf.back().ondisk) FS::Remove(_GetFileName(_buf.size()-1));
         _buf.pop_back();
         DELETE_WF(last);
'''))
r("own-wfbuffer-ref", "C14", ("qdlib/WFBuffer.cpp", '''            _buf[i].ondisk = true;
            DELETE_WF(_buf[i].Psi);
            _buf[i].Psi = NULL;
            return;''', '''            BufMap &entry = _buf[i];
            entry.ondisk = true;
            DELETE_WF(entry.Psi);
            entry.Psi = NULL;
            return;'''))
r("own-propa-section", "C14", ("ProgPropa.cpp", '''         delete section;
      }
      
      QDClock *clock''', '''         delete section;
         section = NULL;
      }
      
      QDClock *clock'''))
r("own-propa-once", "C14", ("ProgPropa.cpp", '''      } catch (Exception &e) {
         _Finalize();
         DELETE_WF(Psi);
         throw;
      }

      _Finalize();
      DELETE_WF(Psi);
''', '''      } catch (Exception &e) {
         WaveFunction *initial = Psi;
         Psi = NULL;
         _Finalize();
         DELETE_WF(initial);
         throw;
      }

      _Finalize();
      WaveFunction *initial = Psi;
      DELETE_WF(initial);
'''))
r("own-ork4-old", "C14", ("qdlib/ORK4.cpp", '''            DELETE_WF(_buf[i]);
            _buf[i] = o->_buf[0]->NewInstance();
''', '''            WaveFunction *old = _buf[i];
            _buf[i] = o->_buf[0]->NewInstance();
            DELETE_WF(old);
'''))
r("own-olaser-swap", "C14", ("qdlib/OLaser.cpp", '''      delete[] _laser;
      if (_Pol != NULL) delete[] _Pol;
      
      _laser = new Laser[num];
      _Pol = NULL;
''', '''      Laser *former = new Laser[num];
      std::swap(former, _laser);
      delete[] former;
      delete[] _Pol;
      _Pol = NULL;
'''))
r("own-ms-while", "C14", ("qdlib/WFMultistate.cpp", '''      for (lint i=0; i < _nstates; i++){
	 DELETE_WF( _states[i] );
      }
      _nstates = 0;
''', '''      while (_nstates > 0)
	 DELETE_WF( _states[--_nstates] );
'''))
r("own-logger", "C14", ("tools/Logger.cpp", '''      delete _ref;
      _ref = 0;
''', '''      Logger *old = _ref;
      _ref = 0;
      delete old;
'''))
r("own-nabla-unique", "C14", ("qdlib/OGridNabla.cpp", '''      view += *kspace1;
      delete kspace1;
''', '''      std::unique_ptr<dVec> keep(kspace1);
      view += *keep;
'''), ("qdlib/OGridNabla.cpp", '''#include "OGridNabla.h"
''', '''#include "OGridNabla.h"
#include <memory>
'''))
r("own-odm-dtor", "C14", ("qdlib/ODMultistate.cpp", '''      if (_X != NULL){
         for (int i = 0; i < _state_size; i++) {
            delete _X[i];
         }
         delete[] _X;
      }
''', '''      if (_X != NULL){
         for (dMat **m = _X; m != _X + _state_size; ++m)
            delete *m;
         delete[] _X;
         _X = NULL;
      }
'''))
r("own-sil-helper", "C14", ("qdlib/OSIL.cpp", '''           DELETE_WF(buf0);
           DELETE_WF(buf1);
           DELETE_WF(buf2);
           buf0 = ''', '''           WaveFunction *gone[] = {buf0, buf1, buf2};
           for (WaveFunction *w : gone)
              DELETE_WF(w);
           buf0 = '''))
r("own-eigen-renew", "C14", ("ProgEigen.cpp", '''      DELETE_WF(Psi_old);
      DELETE_WF(Psi);
      DELETE_WF(buf);
''', '''      Collector<WaveFunction> *pool = Collector<WaveFunction>::Instance();
      pool->Delete(buf);
      pool->Delete(Psi);
      pool->Delete(Psi_old);
'''))
r("own-projection-inline", "C14", ("qdlib/OProjection.cpp", '''      DELETE_WF(_buf);
      _buf = NULL;
   }
''', '''      if (_buf == NULL) return;
      WaveFunction *b = _buf;
      _buf = NULL;
      DELETE_WF(b);
   }
'''))
r("own-hofd-method", "C14", ("qdlib/OGridHOFD.cpp", '''      if (_hofd != NULL) delete _hofd;
      _hofd = NULL;
      if (o->_hofd''', '''      _Forget();
      if (o->_hofd'''), ("qdlib/OGridHOFD.cpp", '''   Operator* OGridHOFD::operator =(Operator* O)''', '''   void OGridHOFD::_Forget()
   {
      delete _hofd;
      _hofd = NULL;
   }

   Operator* OGridHOFD::operator =(Operator* O)'''), ("qdlib/OGridHOFD.h", '''      public:
''', '''         void _Forget();
      public:
'''))
r("own-gridsum-dtor", "C14", ("qdlib/OGridSum.cpp", '''      for (int i=0; i < MAX_OPS; i++)
	 if (_O[i] != NULL) DELETE_OP(_O[i]);
''', '''      for (int i=MAX_OPS-1; i >= 0; i--) {
	 if (_O[i] == NULL) continue;
	 DELETE_OP(_O[i]);
	 _O[i] = NULL;
      }
'''))
# ---- C15: loops written differently
r("loop-xml-helper", "C15", ("CmdHandler.cpp", '''   void CmdHandler::RunXML(''', '''   static bool More(XmlNode *n) { return n->EndNode(); }
   static void Step(XmlNode *n) { n->NextNode(); }

   void CmdHandler::RunXML('''), ("CmdHandler.cpp", '''            while (opdefs->EndNode()) {''', '''            while (More(opdefs)) {'''), ("CmdHandler.cpp", '''               opdefs->NextNode();
''', '''               Step(opdefs);
'''))
r("loop-xml-for", "C15", ("ProgCfun.cpp", '''      while (child->EndNode()){
	  if ( child->Name() == "U" ) {''', '''      for (; child->EndNode(); child->NextNode()){
	  if ( child->Name() == "U" ) {'''), ("ProgCfun.cpp", '''	  i++;
	  child->NextNode();
''', '''	  i++;
'''))
r("loop-xml-break", "C15", ("FiltersList.cpp", '''while (filters->EndNode())''', '''for (;;) { if (!filters->EndNode()) break;'''), ("FiltersList.cpp", '''filters->NextNode();
''', '''filters->NextNode(); }
'''))
r("loop-next-do", "C15", ("tools/XmlNode.cpp", '''      _cur_node = _cur_node->next;
      while ( _cur_node != NULL ){
	 if ( _cur_node->type == XML_ELEMENT_NODE ) break;
         _cur_node = _cur_node->next;
      }
	 
''', '''      do {
         _cur_node = _cur_node->next;
      } while (_cur_node != NULL && _cur_node->type != XML_ELEMENT_NODE);
'''))
r("loop-next-local", "C15", ("tools/XmlNode.cpp", '''      _cur_node = _cur_node->next;
      while ( _cur_node != NULL ){
	 if ( _cur_node->type == XML_ELEMENT_NODE ) break;
         _cur_node = _cur_node->next;
      }
	 
''', '''      xmlNode *n = _cur_node->next;
      for (; n; n = n->next)
	 if ( n->type == XML_ELEMENT_NODE ) break;
      _cur_node = n;
'''))
r("loop-child-local", "C15", ("tools/XmlNode.cpp", '''         while ( child->_cur_node != NULL ){
            if ( child->_cur_node->type == XML_ELEMENT_NODE ) break;
            child->_cur_node = child->_cur_node->next;
         }''', '''         while ( child->_cur_node != NULL && child->_cur_node->type != XML_ELEMENT_NODE ){
            xmlNode *next = child->_cur_node->next;
            child->_cur_node = next;
         }'''))
r("loop-cleanup-post", "C15", ("tools/Memory.cpp", '''             slot_map.erase(sit);
             sit = slot_map.begin();
          } else''', '''             slot_map.erase(sit++);
          } else'''))
r("loop-cleanup-next", "C15", ("tools/Memory.cpp", '''             slot_map.erase(sit);
             sit = slot_map.begin();
          } else
             sit++;''', '''             map<void*, SlotEntry>::iterator old = sit;
             ++sit;
             slot_map.erase(old);
          } else
             ++sit;'''))
r("loop-wflist-ret", "C15", ("GlobalWFList.cpp", '''            _WFStore.erase(it);
            it = _WFStore.begin(); /* iterator is now invalid => start over */
         } else it++;''', '''            it = _WFStore.erase(it);
            continue;
         }
         it++;'''))
r("loop-split-for", "C15", ("tools/helpers.cpp", '''       size_t pos = 0;
       string buf = s;

       while (pos != string::npos){
          pos = buf.find(",");
          if (pos != buf.npos){
             array.push_back(buf.substr(0, pos));
             buf.erase(0, pos+1);
          } else if (pos == string::npos){
             array.push_back(buf);
          }
       }''', '''       size_t begin = 0;
       size_t pos = s.find(",");

       while (pos != string::npos){
          array.push_back(s.substr(begin, pos-begin));
          begin = pos + 1;
          pos = s.find(",", begin);
       }
       array.push_back(s.substr(begin));'''))
r("loop-split-substr", "C15", ("tools/helpers.cpp", '''          pos = buf.find(",");
          if (pos != buf.npos){
             array.push_back(buf.substr(0, pos));
             buf.erase(0, pos+1);
          } else if (pos == string::npos){
             array.push_back(buf);
          }''', '''          pos = buf.find(",");
          if (pos == string::npos) {
             array.push_back(buf);
             break;
          }
          array.push_back(buf.substr(0, pos));
          buf = buf.substr(pos+1);'''))
r("loop-split-forever", "C15", ("tools/helpers.cpp", '''       while (pos != string::npos){
          pos = buf.find(",");
          if (pos != buf.npos){
             array.push_back(buf.substr(0, pos));
             buf.erase(0, pos+1);
          } else if (pos == string::npos){
             array.push_back(buf);
          }''', '''       while (true){
          pos = buf.find(",");
          if (pos == buf.npos){
             array.push_back(buf);
             return;
          }
          array.push_back(buf.substr(0, pos));
          buf.erase(0, pos+1);'''))
r("loop-resize-while", "C15", ("qdlib/WFBuffer.cpp", '''         for (size_t i=oldsize-1; _buf.size() > size; i--){
            if''', '''         while (_buf.size() > size){
            size_t i = _buf.size()-1;
            if'''))
r("loop-resize-up", "C15", ("qdlib/WFBuffer.cpp", '''         for (size_t i=oldsize-1; _buf.size() > size; i--){
            if''', '''         for (size_t i=oldsize; i-- > size; ){
            if'''))
r("loop-clear-size", "C15", ("qdlib/WFBuffer.cpp", '''      while (! _buf.empty() ){
         DELETE_WF(_buf.back().Psi);''', '''      while (_buf.size() > 0){
         DELETE_WF(_buf.back().Psi);'''))
r("loop-read-flag", "C15", ("qdlib/WFBuffer.cpp", '''      while (counter < num || num == -1){ /* Run loop until something fails => must be the end of the wf-series (this is dirty) */
         try {
            wfile >> psi;
         } catch (EIOError& e) {
            break;
         }
''', '''      for (;;) {
         if (num != -1 && counter >= num) break;
         try {
            wfile >> psi;
         } catch (EIOError& e) {
            return;
         }
'''))
r("loop-qdz-done", "C15", ("qdz.cpp", '''      while (true){
         counter = wio.Counter();
         try {
            wio >> WF;
         } catch (Exception e) {
            /** \\todo capture real errors here */
            break;
         }

         cout << "deflate "''', '''      bool more = true;
      while (more){
         counter = wio.Counter();
         try {
            wio >> WF;
         } catch (Exception e) {
            more = false;
         }
         if (!more) break;

         cout << "deflate "'''))
r("loop-input-do", "C15", ("qdng.cpp", '''      while (infile.good()) {
         infile.read(buf, QDNG_INPUT_BUFFER);
         xml.append(buf, infile.gcount());
      }
''', '''      do {
         infile.read(buf, QDNG_INPUT_BUFFER);
         xml.append(buf, infile.gcount());
      } while (!infile.fail());
'''))
r("loop-input-cond", "C15", ("qdng.cpp", '''      while (infile.good()) {
         infile.read(buf, QDNG_INPUT_BUFFER);
         xml.append(buf, infile.gcount());
      }
''', '''      while (infile.read(buf, QDNG_INPUT_BUFFER))
         xml.append(buf, infile.gcount());
      xml.append(buf, infile.gcount());
'''))
r("loop-zcopy-rest", "C15", ("tools/ZCopyStream.cpp", '''      while (size_written < size){
         if(!os.Next(reinterpret_cast<void**>(&buf), &buf_size))
            throw(EIOError("WriteToZeroCopyStream failed!?"));

         len = buf_size;
         if ((size_t) buf_size > size-size_written) len = size-size_written;
''', '''      while (size_written < size){
         if(!os.Next(reinterpret_cast<void**>(&buf), &buf_size))
            throw(EIOError("WriteToZeroCopyStream failed!?"));

         size_t rest = size-size_written;
         len = min(rest, (size_t) buf_size);
'''))
r("loop-eigen-for", "C15", ("ProgEigen.cpp", '''         while (s < _MaxSteps && diff > _convergence){''', '''         for (; s < _MaxSteps; s++){
            if (diff <= _convergence) break;'''), ("ProgEigen.cpp", '''            ++(*clock);                     /* Step the clock */
            s++;
         }
         _P->Set''', '''            ++(*clock);                     /* Step the clock */
         }
         _P->Set'''))
r("loop-eigen-conv", "C15", ("ProgEigen.cpp", '''         while (s < _MaxSteps && diff > _convergence){''', '''         bool converged = false;
         while (!converged && s < _MaxSteps){'''), ("ProgEigen.cpp", '''            ++(*clock);                     /* Step the clock */
            s++;
         }
         _P->Set''', '''            ++(*clock);                     /* Step the clock */
            s++;
            converged = !(diff > _convergence);
         }
         _P->Set'''))
r("loop-eigen-do", "C15", ("ProgEigen.cpp", '''         while (s < _MaxSteps && diff > _convergence){''', '''         int left = _MaxSteps;
         while (left-- > 0 && diff > _convergence){'''))
r("loop-peak-while", "C15", ("tools/PeakFinder.cpp", '''      for (it = maxi->begin(); it != maxi->end(); it++){
         uint min, max;''', '''      it = maxi->begin();
      while (it != maxi->end()){
         uint min, max;'''), ("tools/PeakFinder.cpp", '''            _peaks.push_back(*it);
      }


      delete maxi;''', '''            _peaks.push_back(*it);
         ++it;
      }


      delete maxi;'''))
r("loop-getopt-assign", "C15", ("tools/Getopt.cpp", '''      while ( (i = getopt(argc, argv, optdef)) != -1){
      char a = (char) i;''', '''      while (true){
      i = getopt(argc, argv, optdef);
      if (i == -1) break;
      char a = (char) i;'''))
r("loop-gs-for", "C15", ("qdlib/GridSystem.cpp", '''      while (pm.isPresent(s) && i < dims) {''', '''      for (;;) {
         if (i >= dims || !pm.isPresent(s)) break;'''))
r("loop-hofd-up", "C15", ("qdlib/HOFD.h", '''            for (int j=order2-1; j >= order2-i; j--){
               db +=''', '''            int j = order2;
            while (--j >= order2-i){
               db +='''))
r("loop-propa-while", "C15", ("ProgPropa.cpp", '''      for (lint i=start; i <= clock->Steps(); i++){
	 if (_usepre)''', '''      const lint last = clock->Steps();
      for (lint i=start; i <= last; ++i){
	 if (_usepre)'''))
r("loop-fs-find", "C15", ("tools/fstools.cpp", '''      while (!dir.empty() && dir[dir.length()-1] == '/')
         dir.erase(dir.length()-1,1);
''', '''      size_t len = dir.length();
      while (len > 0 && dir[len-1] == '/') len--;
      dir.resize(len);
'''))
r("loop-simple-lim", "C15", ("simpleXml/SyntacticTreeModel.h", '''         for (uint i=0; i <= int(fabs((begin-end)/step)); i++){''', '''         const int last = int(fabs((begin-end)/step));
         for (int i=0; i <= last; i++){'''))
r("loop-indent-while", "C15", ("tools/Logger.cpp", '''	 if (spos+1 >= s.length())
	    spos = string::npos;
	 else
	    spos = s.find("\\n", spos+1);
''', '''	 spos = s.find("\\n", spos+1);
'''))
r("loop-cheby-for", "C15", ("qdlib/OCheby.cpp", '''         while (i < _order && abs(bessel[i - 1] - bessel[i - 2]) > precission) {
            i++;
         }
''', '''         for (; i < _order; i++)
            if (!(abs(bessel[i - 1] - bessel[i - 2]) > precission)) break;
'''))
r("loop-cmd-quit", "C15", ("CmdHandler.cpp", '''      } while  (cmd.cmd() != Command_command_t_QUIT);
''', '''         if (cmd.cmd() == Command_command_t_QUIT) break;
      } while (true);
'''))
r("loop-filewf-while", "C15", ("qdlib/FileWF.cpp", '''            for (int i=rank; i < states; i +=msize ){/* Loop over states */
               Counter(counter); ''', '''            int nloops = (states - rank + msize - 1) / msize;
            for (int l=0; l < nloops; l++ ){/* Loop over states */
               int i = rank + l * msize;
               Counter(counter); '''))
r("loop-write-it", "C15", ("tools/ParamContainer.cpp", '''      while (GetNextValue(key, value)) {
         if (!with_types)''', '''      for (string_map::const_iterator w = _param_map.begin(); w != _param_map.end(); ++w) {
         key = w->first;
         value = w->second;
         if (!with_types)'''))
