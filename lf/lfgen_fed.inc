  // What the generated preamble of a federate does.
  _lf_my_fed_id = pr->fed_id;
  lf_set_federation_id(pr->federation ? pr->federation : "fed");
  lf_mutex_init(&lf_outbound_socket_mutex);
  lf_cond_init(&lf_port_status_changed, &env->mutex);
  _fed.has_upstream = pr->nup > 0;
  _fed.has_downstream = pr->ndown > 0;
  if (pr->min_phys >= 0) _fed.min_delay_from_physical_action_to_federate_output = pr->min_phys;
  for (int i = 0; i < NUMBER_OF_FEDERATES; i++) { _fed.sockets_for_inbound_p2p_connections[i] = -1; _fed.sockets_for_outbound_p2p_connections[i] = -1; }
  _fed.number_of_inbound_p2p_connections = pr->nin_p2p;
  _fed.number_of_outbound_p2p_connections = pr->nout_p2p;
  if (pr->nin_p2p) _fed.inbound_socket_listeners = (lf_thread_t*)calloc(pr->nin_p2p, sizeof(lf_thread_t));
#ifdef FEDERATED_DECENTRALIZED
  lf_set_stp_offset(pr->sta);
  {
    int nf = 0;
    for (int p = 0; p < pr->nport; p++) if (!pr->port[p].input) env->_lf_intended_tag_fields[nf++] = pr->port[p].token ? &((tport_t*)out[p])->intended_tag : &out[p]->intended_tag;
    for (int a = 0; a < pr->naction; a++) env->_lf_intended_tag_fields[nf++] = &act_trig[a].intended_tag;
    // one entry per distinct time to wait, in increasing order
    for (int i = 0; i < pr->nnetin; i++) {
      if (pr->netin[i].physical) continue;
      size_t staa = pr->staa > 0 ? (size_t)pr->staa : 0;
      if (pr->netin[i].delay > 0) staa = staa > (size_t)pr->netin[i].delay ? staa - (size_t)pr->netin[i].delay : 0;
      size_t k = 0;
      while (k < staa_lst_size && staa_lst[k]->STAA < staa) k++;
      if (k == staa_lst_size || staa_lst[k]->STAA != staa) {
        for (size_t j = staa_lst_size; j > k; j--) staa_lst[j] = staa_lst[j - 1];
        staa_t* e = &staa_store[staa_lst_size];
        e->STAA = staa; e->num_actions = 0; e->actions = staa_actions[staa_lst_size];
        staa_lst[k] = e; staa_lst_size++;
      }
      staa_lst[k]->actions[staa_lst[k]->num_actions++] = _lf_action_table[i];
    }
  }
#endif
  lf_connect_to_rti("localhost", pr->rti_port);
#if LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT
  synchronize_initial_physical_clock_with_rti(&_fed.socket_TCP_RTI);
#endif
  if (pr->nin_p2p) {
    lf_create_server(0);
    lf_thread_create(&_fed.inbound_p2p_handling_thread_id, lf_handle_p2p_connections_from_federates, env);
  }
  for (int i = 0; i < pr->nout_p2p; i++) lf_connect_to_federate((uint16_t)pr->out_p2p[i]);
