// Every function of every vocabulary, by the prefix that the vocabulary is published with.
terms!(dcam, dc::dcam: vocabulary_encoding_scheme, domain_includes, member_of, range_includes);
terms!(dctype, dc::dcmi_type: collection, dataset, event, image, interactive_resource, moving_image, physical_object, service, software, sound, still_image, text);
terms!(dc, dc::elements: contributor, coverage, creator, date, description, format, identifier, language, publisher, relation, rights, source, subject, title, a_type);
terms!(dcterms, dc::terms: agent, agent_class, bibliographic_resource, a_box, dcmi_type, ddc_classify, file_format, frequency, imt_classify, iso_3166, iso_639_2, iso_639_3, jurisdiction, lcc_classify, lcsh_classify, license_document, linguistic_system, location, location_period_or_jurisdiction, mesh_classify, media_type, media_type_or_extent, method_of_accrual, method_of_instruction, nlm_classify, period, period_of_time, physical_medium, physical_resource, point, policy, rfc_1766, rfc_3066, rfc_4646, rfc_5646, rights_statement, size_or_duration, standard, tgn_classify, udc_classify, uri, w3c_dtf, an_abstract, access_rights, accrual_method, accrual_periodicity, accrual_policy, alternative, audience, available, bibliographic_citation, conforms_to, contributor, coverage, created, creator, date, date_accepted, date_copyrighted, date_submitted, description, education_level, extent, format, has_format, has_part, has_version, identifier, instructional_method, is_format_of, is_part_of, is_referenced_by, is_replaced_by, is_required_by, is_version_of, issued, language, license, mediator, medium, modified, provenance, publisher, references, relation, replaces, requires, rights, rights_holder, source, spatial, subject, temporal, title, a_type, valid);
terms!(foaf, foaf: agent, person, name, title, img, depiction, depicts, family_name, given_name, knows, based_near, age, made, maker, primary_topic, primary_topic_of, project, organization, group, member, document, image, nick, mbox, homepage, weblog, openid, jabber_id, mbox_sha1sum, interest, topic_interest, topic, page, workplace_homepage, work_info_homepage, school_homepage, publications, current_project, past_project, account, online_account, account_name, account_service_homepage, personal_profile_document, tipjar, sha1, thumbnail, logo);
terms!(geo, geo: spatial_thing, temporal_thing, event, point, lat, location, long, alt, lat_long);
terms!(owl, owl: thing, nothing, intersection_of, union_of, complement_of, one_of, restriction, on_property, on_class, on_datatype, all_values_from, some_values_from, has_value, has_self, cardinality, qualified_cardinality, max_cardinality, max_qualified_cardinality, min_cardinality, min_qualified_cardinality, datatype_complement_of, with_restrictions, equivalent_class, disjoint_with, all_disjoint_classes, members, disjoint_union_of, property_chain_axiom, equivalent_property, property_disjoint_with, all_disjoint_properties, inverse_of, functional_property, inverse_functional_property, reflexive_property, irreflexive_property, symmetric_property, asymmetric_property, transitive_property, same_as, different_from, all_different, negative_property_assertion, source_individual, assertion_property, target_individual, target_value, has_key, class, object_property, datatype_property, annotation_property, named_individual, axiom, annotated_source, annotated_property, annotated_target, version_info, deprecated, backward_compatible_with, incompatible_with, prior_version, ontology, version, imports, rational, real, distinct_members, ontology_property, deprecated_class, deprecated_property);
terms!(rdf, rdf: html, lang_string, plain_literal, a_type, property, statement, subject, predicate, object, bag, seq, alt, value, list, nil, first, rest, li, xml_literal, json, compound_literal, language, direction);
terms!(rdfs, rdfs: resource, class, literal, data_type, lang_string, html_literal, xml_literal, property, range, domain, subclass_of, subproperty_of, label, comment, container, container_membership_property, member, see_also, is_defined_by, value);
terms!(skos, skos: collection, concept, concept_scheme, ordered_collection, alt_label, broad_match, broader, broader_transitive, change_note, close_match, definition, editorial_note, exact_match, example, has_top_concept, hidden_label, history_note, in_scheme, mapping_relation, member, member_list, narrow_match, narrower, narrower_transitive, notation, note, pref_label, related, related_match, scope_note, semantic_relation, top_concept_of);
terms!(skosxl, skos::xl: label, literal_form, pref_label, alt_label, label_relation);
terms!(isothes, skos::iso: compound_equivalence, concept_group, preferred_term, thesaurus_array, micro_thesaurus_of, plus_uf_term, plus_use_term, sub_group, subordinate_array, super_group, super_ordinate, broader_generic, broader_instantial, broader_partitive, narrower_generic, narrower_instantial, narrower_partitive);
terms!(status, skos::term_status: term_status);
terms!(xsd, xsd: any_uri, base64_binary, date, date_time, date_time_stamp, day_time_duration, decimal, duration, entity, g_day, g_month, g_month_day, g_year, g_year_month, hex_binary, id, id_ref, id_refs, integer, language, name, nc_name, nm_token, nm_tokens, non_negative_integer, non_positive_integer, normalized_string, notation, ns, positive_integer, q_name, time, token, unsigned_byte, unsigned_int, unsigned_long, unsigned_short, boolean, byte, double, float, int, long, short, string, year_month_duration);
pub const ALL: &[(&str, fn(&str) -> Option<Term>, fn() -> Of)] = &[
    ("dcam", dcam::term, dcam::of),
    ("dctype", dctype::term, dctype::of),
    ("dc", dc::term, dc::of),
    ("dcterms", dcterms::term, dcterms::of),
    ("foaf", foaf::term, foaf::of),
    ("geo", geo::term, geo::of),
    ("owl", owl::term, owl::of),
    ("rdf", rdf::term, rdf::of),
    ("rdfs", rdfs::term, rdfs::of),
    ("skos", skos::term, skos::of),
    ("skosxl", skosxl::term, skosxl::of),
    ("isothes", isothes::term, isothes::of),
    ("status", status::term, status::of),
    ("xsd", xsd::term, xsd::of),
];
